// Configuration of the G+Smo core for header-only instantiation (see /verif/DESIGN.md):
// with VSYM the default coefficient type is the symbolic scalar, otherwise double.
#pragma once
#define GISMO_VERSION    "25.7.0"
#define GISMO_MAJOR      25
#define GISMO_MINOR      7
#define GISMO_PATCH      0
#ifdef VSYM
#include "../../sym.h"
#define GISMO_COEFF_TYPE vsym::Sym
#else
#define GISMO_COEFF_TYPE double
#endif
#ifndef real_t
#define real_t           GISMO_COEFF_TYPE
#endif
#define index_t          int
#define short_t          int
#define GISMO_DATA_DIR "/opt/gismo-core/filedata/"
#define GISMO_SEARCH_PATHS "/opt/gismo-core/filedata/"
#define GISMO_CONFIG_DIR "/nonexistent/"
#include <gsCore/gsConfigExt.h>
#define EIGEN_DEFAULT_DENSE_INDEX_TYPE  index_t
#define EIGEN_DEFAULT_SPARSE_INDEX_TYPE index_t
#define EIGEN_DEFAULT_TO_COL_MAJOR
#define EIGEN_NO_STATIC_ASSERT
#ifdef VSYM
#define EIGEN_DONT_VECTORIZE
#endif
