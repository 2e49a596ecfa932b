#pragma once
#define gsKLShell_ENABLED
