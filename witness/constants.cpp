// Compile-time witnesses for C22: every static_assert compares a published constant or type with the one the core uses,
// or with the value it has been published with.  Nothing here is executed.
#include "gdx.hpp"
#include "gclgms.h"
#include <type_traits>
#ifdef NO_WITNESS
#define static_assert(...) using w_t = int
#endif
#define SAME(id, a, b) static_assert((long long)(a) == (long long)(b), "W:" id)
#define SAMED(id, a, b) static_assert((a) == (b), "W:" id)
#define TYPE(id, a, b) static_assert(std::is_same_v<a, b>, "W:" id)
// published limits
SAME("GMS_MAX_INDEX_DIM is 20", GMS_MAX_INDEX_DIM, 20);
SAME("GLOBAL_MAX_INDEX_DIM is GMS_MAX_INDEX_DIM", GLOBAL_MAX_INDEX_DIM, GMS_MAX_INDEX_DIM);
SAME("GMS_UEL_IDENT_SIZE is 64", GMS_UEL_IDENT_SIZE, 64);
SAME("GLOBAL_UEL_IDENT_SIZE is GMS_UEL_IDENT_SIZE", GLOBAL_UEL_IDENT_SIZE, GMS_UEL_IDENT_SIZE);
SAME("GMS_SSSIZE is 256", GMS_SSSIZE, 256);
// symbol types
SAME("GMS_DT_SET is 0", GMS_DT_SET, 0);
SAME("GMS_DT_PAR is 1", GMS_DT_PAR, 1);
SAME("GMS_DT_VAR is 2", GMS_DT_VAR, 2);
SAME("GMS_DT_EQU is 3", GMS_DT_EQU, 3);
SAME("GMS_DT_ALIAS is 4", GMS_DT_ALIAS, 4);
SAME("GMS_DT_MAX is 5", GMS_DT_MAX, 5);
SAME("dt_set is GMS_DT_SET", dt_set, GMS_DT_SET);
SAME("dt_par is GMS_DT_PAR", dt_par, GMS_DT_PAR);
SAME("dt_var is GMS_DT_VAR", dt_var, GMS_DT_VAR);
SAME("dt_equ is GMS_DT_EQU", dt_equ, GMS_DT_EQU);
SAME("dt_alias is GMS_DT_ALIAS", dt_alias, GMS_DT_ALIAS);
SAME("one record size per symbol type", sizeof(gdx::DataTypSize) / sizeof(gdx::DataTypSize[0]), GMS_DT_MAX);
// variable types
SAME("GMS_VARTYPE_UNKNOWN is 0", GMS_VARTYPE_UNKNOWN, 0);
SAME("GMS_VARTYPE_BINARY is 1", GMS_VARTYPE_BINARY, 1);
SAME("GMS_VARTYPE_INTEGER is 2", GMS_VARTYPE_INTEGER, 2);
SAME("GMS_VARTYPE_POSITIVE is 3", GMS_VARTYPE_POSITIVE, 3);
SAME("GMS_VARTYPE_NEGATIVE is 4", GMS_VARTYPE_NEGATIVE, 4);
SAME("GMS_VARTYPE_FREE is 5", GMS_VARTYPE_FREE, 5);
SAME("GMS_VARTYPE_SOS1 is 6", GMS_VARTYPE_SOS1, 6);
SAME("GMS_VARTYPE_SOS2 is 7", GMS_VARTYPE_SOS2, 7);
SAME("GMS_VARTYPE_SEMICONT is 8", GMS_VARTYPE_SEMICONT, 8);
SAME("GMS_VARTYPE_SEMIINT is 9", GMS_VARTYPE_SEMIINT, 9);
SAME("GMS_VARTYPE_MAX is 10", GMS_VARTYPE_MAX, 10);
// equation types
SAME("GMS_EQU_USERINFO_BASE is 53", GMS_EQU_USERINFO_BASE, 53);
SAME("GMS_EQUEOFFSET is GMS_EQU_USERINFO_BASE", GMS_EQUEOFFSET, GMS_EQU_USERINFO_BASE);
SAME("GMS_EQUTYPE_E is 0", GMS_EQUTYPE_E, 0);
SAME("GMS_EQUTYPE_G is 1", GMS_EQUTYPE_G, 1);
SAME("GMS_EQUTYPE_L is 2", GMS_EQUTYPE_L, 2);
SAME("GMS_EQUTYPE_N is 3", GMS_EQUTYPE_N, 3);
SAME("GMS_EQUTYPE_X is 4", GMS_EQUTYPE_X, 4);
SAME("GMS_EQUTYPE_C is 5", GMS_EQUTYPE_C, 5);
SAME("GMS_EQUTYPE_B is 6", GMS_EQUTYPE_B, 6);
SAME("GMS_EQUTYPE_MAX is 7", GMS_EQUTYPE_MAX, 7);
// set types
SAME("GMS_SETTYPE_DEFAULT is 0", GMS_SETTYPE_DEFAULT, 0);
SAME("GMS_SETTYPE_SINGLETON is 1", GMS_SETTYPE_SINGLETON, 1);
SAME("GMS_SETTYPE_MAX is 2", GMS_SETTYPE_MAX, 2);
// value positions
SAME("GMS_VAL_LEVEL is 0", GMS_VAL_LEVEL, 0);
SAME("GMS_VAL_MARGINAL is 1", GMS_VAL_MARGINAL, 1);
SAME("GMS_VAL_LOWER is 2", GMS_VAL_LOWER, 2);
SAME("GMS_VAL_UPPER is 3", GMS_VAL_UPPER, 3);
SAME("GMS_VAL_SCALE is 4", GMS_VAL_SCALE, 4);
SAME("GMS_VAL_MAX is 5", GMS_VAL_MAX, 5);
SAME("vallevel is GMS_VAL_LEVEL", gdx::vallevel, GMS_VAL_LEVEL);
SAME("valmarginal is GMS_VAL_MARGINAL", gdx::valmarginal, GMS_VAL_MARGINAL);
SAME("vallower is GMS_VAL_LOWER", gdx::vallower, GMS_VAL_LOWER);
SAME("valupper is GMS_VAL_UPPER", gdx::valupper, GMS_VAL_UPPER);
SAME("valscale is GMS_VAL_SCALE", gdx::valscale, GMS_VAL_SCALE);
// special values
SAME("GMS_SVIDX_UNDEF is 0", GMS_SVIDX_UNDEF, 0);
SAME("GMS_SVIDX_NA is 1", GMS_SVIDX_NA, 1);
SAME("GMS_SVIDX_PINF is 2", GMS_SVIDX_PINF, 2);
SAME("GMS_SVIDX_MINF is 3", GMS_SVIDX_MINF, 3);
SAME("GMS_SVIDX_EPS is 4", GMS_SVIDX_EPS, 4);
SAME("GMS_SVIDX_NORMAL is 5", GMS_SVIDX_NORMAL, 5);
SAME("GMS_SVIDX_ACR is 6", GMS_SVIDX_ACR, 6);
SAME("GMS_SVIDX_MAX is 7", GMS_SVIDX_MAX, 7);
SAME("sv_valund is GMS_SVIDX_UNDEF", sv_valund, GMS_SVIDX_UNDEF);
SAME("sv_valna is GMS_SVIDX_NA", sv_valna, GMS_SVIDX_NA);
SAME("sv_valpin is GMS_SVIDX_PINF", sv_valpin, GMS_SVIDX_PINF);
SAME("sv_valmin is GMS_SVIDX_MINF", sv_valmin, GMS_SVIDX_MINF);
SAME("sv_valeps is GMS_SVIDX_EPS", sv_valeps, GMS_SVIDX_EPS);
SAME("sv_normal is GMS_SVIDX_NORMAL", sv_normal, GMS_SVIDX_NORMAL);
SAME("sv_acronym is GMS_SVIDX_ACR", sv_acronym, GMS_SVIDX_ACR);
SAME("vm_valund is GMS_SVIDX_UNDEF", gdx::vm_valund, GMS_SVIDX_UNDEF);
SAME("vm_valna is GMS_SVIDX_NA", gdx::vm_valna, GMS_SVIDX_NA);
SAME("vm_valpin is GMS_SVIDX_PINF", gdx::vm_valpin, GMS_SVIDX_PINF);
SAME("vm_valmin is GMS_SVIDX_MINF", gdx::vm_valmin, GMS_SVIDX_MINF);
SAME("vm_valeps is GMS_SVIDX_EPS", gdx::vm_valeps, GMS_SVIDX_EPS);
SAME("vm_zero is 5 in the file format", gdx::vm_zero, 5);
SAME("vm_one is 6 in the file format", gdx::vm_one, 6);
SAME("vm_mone is 7 in the file format", gdx::vm_mone, 7);
SAME("vm_half is 8 in the file format", gdx::vm_half, 8);
SAME("vm_two is 9 in the file format", gdx::vm_two, 9);
SAME("vm_normal is 10 in the file format", gdx::vm_normal, 10);
SAME("vm_count is 11", gdx::vm_count, 11);
SAMED("GMS_SV_UNDEF is 1e300", GMS_SV_UNDEF, 1.0E300);
SAMED("GMS_SV_NA is 2e300", GMS_SV_NA, 2.0E300);
SAMED("GMS_SV_PINF is 3e300", GMS_SV_PINF, 3.0E300);
SAMED("GMS_SV_MINF is 4e300", GMS_SV_MINF, 4.0E300);
SAMED("GMS_SV_EPS is 5e300", GMS_SV_EPS, 5.0E300);
SAMED("GMS_SV_ACR is 10e300", GMS_SV_ACR, 10.0E300);
SAME("GMS_SV_NAINT is 2100000000", GMS_SV_NAINT, 2100000000);
// domain codes
SAME("DOMC_UNMAPPED is -2", gdx::DOMC_UNMAPPED, -2);
SAME("DOMC_EXPAND is -1", gdx::DOMC_EXPAND, -1);
SAME("DOMC_STRICT is 0", gdx::DOMC_STRICT, 0);
// array types exchanged with the caller
SAME("key array has GMS_MAX_INDEX_DIM entries", sizeof(gdx::TgdxUELIndex), sizeof(gdxUelIndex_t));
SAME("value array has GMS_VAL_MAX entries", sizeof(gdx::TgdxValues), sizeof(gdxValues_t));
SAME("special value array has GMS_SVIDX_MAX entries", sizeof(gdxSVals_t), GMS_SVIDX_MAX * sizeof(double));
SAME("string key array is GMS_MAX_INDEX_DIM short strings", sizeof(gdxStrIndex_t), GMS_MAX_INDEX_DIM * GMS_SSSIZE);
SAME("string key pointer array has GMS_MAX_INDEX_DIM entries", sizeof(gdxStrIndexPtrs_t), GMS_MAX_INDEX_DIM * sizeof(char *));
// callbacks
using cbStore = void (*)(const int *, const double *);
using cbStoreEx = int (*)(const int *, const double *, int, void *);
using cbFilt = int (*)(const int *, const double *, void *);
using cbDom = void (*)(int, int, void *);
TYPE("type of TDataStoreProc_t", gdx::TDataStoreProc_t, cbStore);
TYPE("type of TDataStoreExProc_t", gdx::TDataStoreExProc_t, cbStoreEx);
TYPE("type of TDataStoreFiltProc_t", gdx::TDataStoreFiltProc_t, cbFilt);
TYPE("type of TDomainIndexProc_t", gdx::TDomainIndexProc_t, cbDom);
// decoding macros
SAME("gmsFixEquType of the first type", gmsFixEquType(53), 0);
SAME("gmsFixEquType of the last type", gmsFixEquType(59), 6);
static_assert(gmsFixEquType(60) < 0, "W:gmsFixEquType past the last type");
static_assert(gmsFixEquType(0) < 0, "W:gmsFixEquType without a type");
SAME("gmsFixVarType of the last type", gmsFixVarType(9), 9);
static_assert(gmsFixVarType(10) < 0, "W:gmsFixVarType past the last type");
// tables that are not constant expressions: read from the compiled initialisers
extern const void *const witness_tables[] = { gmsGdxTypeText, gmsVarTypeText, gmsValTypeText, gmsSVText, gmsSpecialValues, gmsDefRecVar, gmsDefRecEqu, &gdx::DataTypSize };
