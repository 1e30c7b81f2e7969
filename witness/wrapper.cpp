// C22: the C loader header and the C++ convenience wrapper publish the same numbers and types as the core (see constants.cpp)
#include "gclgms.h"
#include "gdxcppwrap.hpp"
#include <type_traits>
#ifdef NO_WITNESS
#define static_assert(...) using w_t = int
#endif
#define SAME(id, a, b) static_assert((long long)(a) == (long long)(b), "W:" id)
#define TYPE(id, a, b) static_assert(std::is_same_v<a, b>, "W:" id)
SAME("wrapper: vm_valund", gdx::vm_valund, 0);
SAME("wrapper: vm_valna", gdx::vm_valna, 1);
SAME("wrapper: vm_valpin", gdx::vm_valpin, 2);
SAME("wrapper: vm_valmin", gdx::vm_valmin, 3);
SAME("wrapper: vm_valeps", gdx::vm_valeps, 4);
SAME("wrapper: vm_zero", gdx::vm_zero, 5);
SAME("wrapper: vm_one", gdx::vm_one, 6);
SAME("wrapper: vm_mone", gdx::vm_mone, 7);
SAME("wrapper: vm_half", gdx::vm_half, 8);
SAME("wrapper: vm_two", gdx::vm_two, 9);
SAME("wrapper: vm_normal", gdx::vm_normal, 10);
SAME("wrapper: vm_count", gdx::vm_count, 11);
SAME("wrapper: DOMC_UNMAPPED", gdx::DOMC_UNMAPPED, -2);
SAME("wrapper: DOMC_EXPAND", gdx::DOMC_EXPAND, -1);
SAME("wrapper: DOMC_STRICT", gdx::DOMC_STRICT, 0);
SAME("wrapper: key array", sizeof(gdx::TgdxUELIndex), sizeof(gdxUelIndex_t));
SAME("wrapper: value array", sizeof(gdx::TgdxValues), sizeof(gdxValues_t));
using cbStore = void (*)(const int *, const double *);
using cbStoreEx = int (*)(const int *, const double *, int, void *);
using cbFilt = int (*)(const int *, const double *, void *);
using cbDom = void (*)(int, int, void *);
TYPE("loader: type of TDataStoreProc_t", ::TDataStoreProc_t, cbStore);
TYPE("loader: type of TDataStoreExProc_t", ::TDataStoreExProc_t, cbStoreEx);
TYPE("loader: type of TDataStoreFiltProc_t", ::TDataStoreFiltProc_t, cbFilt);
TYPE("loader: type of TDomainIndexProc_t", ::TDomainIndexProc_t, cbDom);
TYPE("wrapper: type of TDataStoreProc_t", gdx::TDataStoreProc_t, cbStore);
TYPE("wrapper: type of TDataStoreExProc_t", gdx::TDataStoreExProc_t, cbStoreEx);
TYPE("wrapper: type of TDataStoreFiltProc_t", gdx::TDataStoreFiltProc_t, cbFilt);
TYPE("wrapper: type of TDomainIndexProc_t", gdx::TDomainIndexProc_t, cbDom);
using Lvl = gdx::TGXFileObj::TraceLevels;
SAME("wrapper: trl_none", Lvl::trl_none, 0);
SAME("wrapper: trl_errors", Lvl::trl_errors, 1);
SAME("wrapper: trl_some", Lvl::trl_some, 2);
SAME("wrapper: trl_all", Lvl::trl_all, 3);
