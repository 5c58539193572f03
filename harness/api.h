/* generated by gen_api.py: the public operations under one name, over the bindings the repository ships */
#ifndef API_H
#define API_H
#include "vf.h"
#ifndef BIND
#define BIND 0
#endif
/* BIND: 0 zj_* in C; 1 short names in C; 2 zj_Value member functions; 3 zzzjson.hpp; 4 short names in namespace zj; 5 beta/zzzjson_beta.h; 6 zj_* compiled as C++ */
#if BIND == 0 || BIND == 6 || BIND == 1
#include "zzzjson.h"
#if BIND == 6
using namespace zj;
#endif
typedef zj_Value JV; typedef zj_Allocator JA; typedef zj_Size JSize; typedef bool JBool;
enum { JBoolT = zj_JSONTypeBool, JArr = zj_JSONTypeArray, JObj = zj_JSONTypeObject, JStr = zj_JSONTypeString, JNull = zj_JSONTypeNull, JNumT = zj_JSONTypeNumber };
#if BIND == 1
static inline JA *J_NewAllocator(void) { return NewAllocator(); }
static inline void J_ReleaseAllocator(JA *a) { ReleaseAllocator(a); }
static inline JV *J_NewValue(JA *a) { return NewValue(a); }
static inline int J_Type(JV *v) { const JSONType *t = Type(v); return t ? (int)*t : 0; }
static inline JSize J_SizeOf(JV *v) { return SizeOf(v); }
static inline bool J_ParseFast(JV *v, const char * a0) { return ParseFast(v, a0); }
static inline bool J_ParseLen(JV *v, const char * a0, JSize a1) { return ParseLen(v, a0, a1); }
static inline bool J_Parse(JV *v, const char * a0) { return Parse(v, a0); }
static inline const char * J_Stringify(JV *v) { return Stringify(v); }
static inline const char * J_GetStrFast(JV *v, JSize * a0) { return GetStrFast(v, a0); }
static inline const char * J_GetUnEscapeStr(JV *v) { return GetUnEscapeStr(v); }
static inline const char * J_GetStr(JV *v) { return GetStr(v); }
static inline const char * J_GetNumFast(JV *v, JSize * a0) { return GetNumFast(v, a0); }
static inline const char * J_GetNumStr(JV *v) { return GetNumStr(v); }
static inline const double * J_GetNum(JV *v) { return GetNum(v); }
static inline const double * J_GetDouble(JV *v) { return GetDouble(v); }
static inline const int * J_GetInt(JV *v) { return GetInt(v); }
static inline const long * J_GetLong(JV *v) { return GetLong(v); }
static inline const long long * J_GetLongLong(JV *v) { return GetLongLong(v); }
static inline const JBool * J_GetBool(JV *v) { return GetBool(v); }
static inline bool J_IsNull(JV *v) { return IsNull(v); }
static inline const char * J_GetKey(JV *v) { return GetKey(v); }
static inline const char * J_GetUnEscapeKey(JV *v) { return GetUnEscapeKey(v); }
static inline const char * J_GetKeyFast(JV *v, JSize * a0) { return GetKeyFast(v, a0); }
static inline JV * J_ObjGet(JV *v, const char * a0) { return ObjGet(v, a0); }
static inline JV * J_ObjGetLen(JV *v, const char * a0, JSize a1) { return ObjGetLen(v, a0, a1); }
static inline JV * J_ArrayGet(JV *v, JSize a0) { return ArrayGet(v, a0); }
static inline JV * J_Begin(JV *v) { return Begin(v); }
static inline JV * J_Next(JV *v) { return Next(v); }
static inline JV * J_Copy(JV *v) { return Copy(v); }
static inline bool J_Move(JV *v) { return Move(v); }
static inline void J_SetNull(JV *v) { SetNull(v); }
static inline void J_SetBool(JV *v, bool a0) { SetBool(v, a0); }
static inline bool J_SetNumStrFast(JV *v, const char * a0) { return SetNumStrFast(v, a0); }
static inline bool J_SetNumStrLenFast(JV *v, const char * a0, JSize a1) { return SetNumStrLenFast(v, a0, a1); }
static inline bool J_SetNumStr(JV *v, const char * a0) { return SetNumStr(v, a0); }
static inline bool J_SetNumStrLen(JV *v, const char * a0, JSize a1) { return SetNumStrLen(v, a0, a1); }
static inline bool J_SetNum(JV *v, double a0) { return SetNum(v, a0); }
static inline bool J_SetDouble(JV *v, double a0) { return SetDouble(v, a0); }
static inline bool J_SetInt(JV *v, int a0) { return SetInt(v, a0); }
static inline bool J_SetLong(JV *v, long a0) { return SetLong(v, a0); }
static inline bool J_SetLongLong(JV *v, long long a0) { return SetLongLong(v, a0); }
static inline bool J_SetStrFast(JV *v, const char * a0) { return SetStrFast(v, a0); }
static inline bool J_SetStrLenFast(JV *v, const char * a0, JSize a1) { return SetStrLenFast(v, a0, a1); }
static inline bool J_SetStr(JV *v, const char * a0) { return SetStr(v, a0); }
static inline bool J_SetStrLen(JV *v, const char * a0, JSize a1) { return SetStrLen(v, a0, a1); }
static inline bool J_SetStrEscape(JV *v, const char * a0) { return SetStrEscape(v, a0); }
static inline bool J_SetStrLenEscape(JV *v, const char * a0, JSize a1) { return SetStrLenEscape(v, a0, a1); }
static inline bool J_SetKeyFast(JV *v, const char * a0) { return SetKeyFast(v, a0); }
static inline bool J_SetKeyLenFast(JV *v, const char * a0, JSize a1) { return SetKeyLenFast(v, a0, a1); }
static inline bool J_SetKey(JV *v, const char * a0) { return SetKey(v, a0); }
static inline bool J_SetKeyLen(JV *v, const char * a0, JSize a1) { return SetKeyLen(v, a0, a1); }
static inline bool J_SetKeyEscape(JV *v, const char * a0) { return SetKeyEscape(v, a0); }
static inline bool J_SetKeyLenEscape(JV *v, const char * a0, JSize a1) { return SetKeyLenEscape(v, a0, a1); }
static inline void J_SetArray(JV *v) { SetArray(v); }
static inline void J_SetObj(JV *v) { SetObj(v); }
static inline bool J_SetFast(JV *v, JV * a0) { return SetFast(v, a0); }
static inline bool J_Set(JV *v, JV * a0) { return Set(v, a0); }
static inline bool J_ObjAddFast(JV *v, JV * a0) { return ObjAddFast(v, a0); }
static inline bool J_ObjAdd(JV *v, JV * a0) { return ObjAdd(v, a0); }
static inline bool J_ArrayAddFast(JV *v, JV * a0) { return ArrayAddFast(v, a0); }
static inline bool J_ArrayAdd(JV *v, JV * a0) { return ArrayAdd(v, a0); }
static inline bool J_ArrayDel(JV *v, JSize a0) { return ArrayDel(v, a0); }
static inline bool J_ObjDel(JV *v, const char * a0) { return ObjDel(v, a0); }
#else
static inline JA *J_NewAllocator(void) { return zj_NewAllocator(); }
static inline void J_ReleaseAllocator(JA *a) { zj_ReleaseAllocator(a); }
static inline JV *J_NewValue(JA *a) { return zj_NewValue(a); }
static inline int J_Type(JV *v) { const zj_JSONType *t = zj_Type(v); return t ? (int)*t : 0; }
static inline JSize J_SizeOf(JV *v) { return zj_SizeOf(v); }
static inline bool J_ParseFast(JV *v, const char * a0) { return zj_ParseFast(v, a0); }
static inline bool J_ParseLen(JV *v, const char * a0, JSize a1) { return zj_ParseLen(v, a0, a1); }
static inline bool J_Parse(JV *v, const char * a0) { return zj_Parse(v, a0); }
static inline const char * J_Stringify(JV *v) { return zj_Stringify(v); }
static inline const char * J_GetStrFast(JV *v, JSize * a0) { return zj_GetStrFast(v, a0); }
static inline const char * J_GetUnEscapeStr(JV *v) { return zj_GetUnEscapeStr(v); }
static inline const char * J_GetStr(JV *v) { return zj_GetStr(v); }
static inline const char * J_GetNumFast(JV *v, JSize * a0) { return zj_GetNumFast(v, a0); }
static inline const char * J_GetNumStr(JV *v) { return zj_GetNumStr(v); }
static inline const double * J_GetNum(JV *v) { return zj_GetNum(v); }
static inline const double * J_GetDouble(JV *v) { return zj_GetDouble(v); }
static inline const int * J_GetInt(JV *v) { return zj_GetInt(v); }
static inline const long * J_GetLong(JV *v) { return zj_GetLong(v); }
static inline const long long * J_GetLongLong(JV *v) { return zj_GetLongLong(v); }
static inline const JBool * J_GetBool(JV *v) { return zj_GetBool(v); }
static inline bool J_IsNull(JV *v) { return zj_IsNull(v); }
static inline const char * J_GetKey(JV *v) { return zj_GetKey(v); }
static inline const char * J_GetUnEscapeKey(JV *v) { return zj_GetUnEscapeKey(v); }
static inline const char * J_GetKeyFast(JV *v, JSize * a0) { return zj_GetKeyFast(v, a0); }
static inline JV * J_ObjGet(JV *v, const char * a0) { return zj_ObjGet(v, a0); }
static inline JV * J_ObjGetLen(JV *v, const char * a0, JSize a1) { return zj_ObjGetLen(v, a0, a1); }
static inline JV * J_ArrayGet(JV *v, JSize a0) { return zj_ArrayGet(v, a0); }
static inline JV * J_Begin(JV *v) { return zj_Begin(v); }
static inline JV * J_Next(JV *v) { return zj_Next(v); }
static inline JV * J_Copy(JV *v) { return zj_Copy(v); }
static inline bool J_Move(JV *v) { return zj_Move(v); }
static inline void J_SetNull(JV *v) { zj_SetNull(v); }
static inline void J_SetBool(JV *v, bool a0) { zj_SetBool(v, a0); }
static inline bool J_SetNumStrFast(JV *v, const char * a0) { return zj_SetNumStrFast(v, a0); }
static inline bool J_SetNumStrLenFast(JV *v, const char * a0, JSize a1) { return zj_SetNumStrLenFast(v, a0, a1); }
static inline bool J_SetNumStr(JV *v, const char * a0) { return zj_SetNumStr(v, a0); }
static inline bool J_SetNumStrLen(JV *v, const char * a0, JSize a1) { return zj_SetNumStrLen(v, a0, a1); }
static inline bool J_SetNum(JV *v, double a0) { return zj_SetNum(v, a0); }
static inline bool J_SetDouble(JV *v, double a0) { return zj_SetDouble(v, a0); }
static inline bool J_SetInt(JV *v, int a0) { return zj_SetInt(v, a0); }
static inline bool J_SetLong(JV *v, long a0) { return zj_SetLong(v, a0); }
static inline bool J_SetLongLong(JV *v, long long a0) { return zj_SetLongLong(v, a0); }
static inline bool J_SetStrFast(JV *v, const char * a0) { return zj_SetStrFast(v, a0); }
static inline bool J_SetStrLenFast(JV *v, const char * a0, JSize a1) { return zj_SetStrLenFast(v, a0, a1); }
static inline bool J_SetStr(JV *v, const char * a0) { return zj_SetStr(v, a0); }
static inline bool J_SetStrLen(JV *v, const char * a0, JSize a1) { return zj_SetStrLen(v, a0, a1); }
static inline bool J_SetStrEscape(JV *v, const char * a0) { return zj_SetStrEscape(v, a0); }
static inline bool J_SetStrLenEscape(JV *v, const char * a0, JSize a1) { return zj_SetStrLenEscape(v, a0, a1); }
static inline bool J_SetKeyFast(JV *v, const char * a0) { return zj_SetKeyFast(v, a0); }
static inline bool J_SetKeyLenFast(JV *v, const char * a0, JSize a1) { return zj_SetKeyLenFast(v, a0, a1); }
static inline bool J_SetKey(JV *v, const char * a0) { return zj_SetKey(v, a0); }
static inline bool J_SetKeyLen(JV *v, const char * a0, JSize a1) { return zj_SetKeyLen(v, a0, a1); }
static inline bool J_SetKeyEscape(JV *v, const char * a0) { return zj_SetKeyEscape(v, a0); }
static inline bool J_SetKeyLenEscape(JV *v, const char * a0, JSize a1) { return zj_SetKeyLenEscape(v, a0, a1); }
static inline void J_SetArray(JV *v) { zj_SetArray(v); }
static inline void J_SetObj(JV *v) { zj_SetObj(v); }
static inline bool J_SetFast(JV *v, JV * a0) { return zj_SetFast(v, a0); }
static inline bool J_Set(JV *v, JV * a0) { return zj_Set(v, a0); }
static inline bool J_ObjAddFast(JV *v, JV * a0) { return zj_ObjAddFast(v, a0); }
static inline bool J_ObjAdd(JV *v, JV * a0) { return zj_ObjAdd(v, a0); }
static inline bool J_ArrayAddFast(JV *v, JV * a0) { return zj_ArrayAddFast(v, a0); }
static inline bool J_ArrayAdd(JV *v, JV * a0) { return zj_ArrayAdd(v, a0); }
static inline bool J_ArrayDel(JV *v, JSize a0) { return zj_ArrayDel(v, a0); }
static inline bool J_ObjDel(JV *v, const char * a0) { return zj_ObjDel(v, a0); }
#endif
#elif BIND == 2
#include "zzzjson.h"
typedef zj::Value JV; typedef zj::Allocator JA; typedef zj::Size JSize; typedef bool JBool;
enum { JBoolT = zj::JSONTypeBool, JArr = zj::JSONTypeArray, JObj = zj::JSONTypeObject, JStr = zj::JSONTypeString, JNull = zj::JSONTypeNull, JNumT = zj::JSONTypeNumber };
static inline JA *J_NewAllocator(void) { return new (malloc(sizeof(JA))) JA(); }
static inline void J_ReleaseAllocator(JA *a) { a->~JA(); free(a); }
static inline JV *J_NewValue(JA *a) { JV *v = JV::NewValue(a); vf_assert(v->Allocator() == a, "a value knows its allocator"); return v; }
static inline int J_Type(JV *v) { const zj::JSONType *t = v->Type(); return t ? (int)*t : 0; }
static inline JSize J_SizeOf(JV *v) { return v->SizeOf(); }
static inline bool J_ParseFast(JV *v, const char * a0) { return v->ParseFast(a0); }
static inline bool J_ParseLen(JV *v, const char * a0, JSize a1) { return v->ParseLen(a0, a1); }
static inline bool J_Parse(JV *v, const char * a0) { return v->Parse(a0); }
static inline const char * J_Stringify(JV *v) { return v->Stringify(); }
static inline const char * J_GetStrFast(JV *v, JSize * a0) { return v->GetStrFast(a0); }
static inline const char * J_GetUnEscapeStr(JV *v) { return v->GetUnEscapeStr(); }
static inline const char * J_GetStr(JV *v) { return v->GetStr(); }
static inline const char * J_GetNumFast(JV *v, JSize * a0) { return v->GetNumFast(a0); }
static inline const char * J_GetNumStr(JV *v) { return v->GetNumStr(); }
static inline const double * J_GetNum(JV *v) { return v->GetNum(); }
static inline const double * J_GetDouble(JV *v) { return v->GetDouble(); }
static inline const int * J_GetInt(JV *v) { return v->GetInt(); }
static inline const long * J_GetLong(JV *v) { return v->GetLong(); }
static inline const long long * J_GetLongLong(JV *v) { return v->GetLongLong(); }
static inline const JBool * J_GetBool(JV *v) { return v->GetBool(); }
static inline bool J_IsNull(JV *v) { return v->IsNull(); }
static inline const char * J_GetKey(JV *v) { return v->GetKey(); }
static inline const char * J_GetUnEscapeKey(JV *v) { return v->GetUnEscapeKey(); }
static inline const char * J_GetKeyFast(JV *v, JSize * a0) { return v->GetKeyFast(a0); }
static inline JV * J_ObjGet(JV *v, const char * a0) { return v->ObjGet(a0); }
static inline JV * J_ObjGetLen(JV *v, const char * a0, JSize a1) { return v->ObjGetLen(a0, a1); }
static inline JV * J_ArrayGet(JV *v, JSize a0) { return v->ArrayGet(a0); }
static inline JV * J_Begin(JV *v) { return v->Begin(); }
static inline JV * J_Next(JV *v) { return v->Next(); }
static inline JV * J_Copy(JV *v) { return v->Copy(); }
static inline bool J_Move(JV *v) { return v->Move(); }
static inline void J_SetNull(JV *v) { v->SetNull(); }
static inline void J_SetBool(JV *v, bool a0) { v->SetBool(a0); }
static inline bool J_SetNumStrFast(JV *v, const char * a0) { return v->SetNumStrFast(a0); }
static inline bool J_SetNumStrLenFast(JV *v, const char * a0, JSize a1) { return v->SetNumStrLenFast(a0, a1); }
static inline bool J_SetNumStr(JV *v, const char * a0) { return v->SetNumStr(a0); }
static inline bool J_SetNumStrLen(JV *v, const char * a0, JSize a1) { return v->SetNumStrLen(a0, a1); }
static inline bool J_SetNum(JV *v, double a0) { return v->SetNum(a0); }
static inline bool J_SetDouble(JV *v, double a0) { return v->SetDouble(a0); }
static inline bool J_SetInt(JV *v, int a0) { return v->SetInt(a0); }
static inline bool J_SetLong(JV *v, long a0) { return v->SetLong(a0); }
static inline bool J_SetLongLong(JV *v, long long a0) { return v->SetLongLong(a0); }
static inline bool J_SetStrFast(JV *v, const char * a0) { return v->SetStrFast(a0); }
static inline bool J_SetStrLenFast(JV *v, const char * a0, JSize a1) { return v->SetStrLenFast(a0, a1); }
static inline bool J_SetStr(JV *v, const char * a0) { return v->SetStr(a0); }
static inline bool J_SetStrLen(JV *v, const char * a0, JSize a1) { return v->SetStrLen(a0, a1); }
static inline bool J_SetStrEscape(JV *v, const char * a0) { return v->SetStrEscape(a0); }
static inline bool J_SetStrLenEscape(JV *v, const char * a0, JSize a1) { return v->SetStrLenEscape(a0, a1); }
static inline bool J_SetKeyFast(JV *v, const char * a0) { return v->SetKeyFast(a0); }
static inline bool J_SetKeyLenFast(JV *v, const char * a0, JSize a1) { return v->SetKeyLenFast(a0, a1); }
static inline bool J_SetKey(JV *v, const char * a0) { return v->SetKey(a0); }
static inline bool J_SetKeyLen(JV *v, const char * a0, JSize a1) { return v->SetKeyLen(a0, a1); }
static inline bool J_SetKeyEscape(JV *v, const char * a0) { return v->SetKeyEscape(a0); }
static inline bool J_SetKeyLenEscape(JV *v, const char * a0, JSize a1) { return v->SetKeyLenEscape(a0, a1); }
static inline void J_SetArray(JV *v) { v->SetArray(); }
static inline void J_SetObj(JV *v) { v->SetObj(); }
static inline bool J_SetFast(JV *v, JV * a0) { return v->SetFast(a0); }
static inline bool J_Set(JV *v, JV * a0) { return v->Set(a0); }
static inline bool J_ObjAddFast(JV *v, JV * a0) { return v->ObjAddFast(a0); }
static inline bool J_ObjAdd(JV *v, JV * a0) { return v->ObjAdd(a0); }
static inline bool J_ArrayAddFast(JV *v, JV * a0) { return v->ArrayAddFast(a0); }
static inline bool J_ArrayAdd(JV *v, JV * a0) { return v->ArrayAdd(a0); }
static inline bool J_ArrayDel(JV *v, JSize a0) { return v->ArrayDel(a0); }
static inline bool J_ObjDel(JV *v, const char * a0) { return v->ObjDel(a0); }
#elif BIND == 3
#include "zzzjson.hpp"
typedef zzzjson::Value JV; typedef zzzjson::Allocator JA; typedef zzzjson::SIZE JSize; typedef bool JBool;
enum { JBoolT = zj::JSONTypeBool, JArr = zj::JSONTypeArray, JObj = zj::JSONTypeObject, JStr = zj::JSONTypeString, JNull = zj::JSONTypeNull, JNumT = zj::JSONTypeNumber };
static inline int jtype(const zzzjson::JSONType *t) { if (!t) return 0; if (*t == zzzjson::JSONTypeArray) return JArr; if (*t == zzzjson::JSONTypeObject) return JObj; if (*t == zzzjson::JSONTypeString) return JStr; if (*t == zzzjson::JSONTypeNumber) return JNumT; if (*t == zzzjson::JSONTypeBool) return JBoolT; if (*t == zzzjson::JSONTypeNull) return JNull; return 99; }
/* values are made in turn by the static function and from another value */
static JV *vf_last; static JA *vf_lastA; static int vf_turn;
static inline JA *J_NewAllocator(void) { return new (malloc(sizeof(JA))) JA(); }
static inline void J_ReleaseAllocator(JA *a) { if (vf_lastA == a) vf_lastA = 0; a->~JA(); free(a); }
static inline JV *J_NewValue(JA *a) { if (vf_lastA == a && (vf_turn ^= 1)) return vf_last->NewValue(); vf_lastA = a; return vf_last = JV::NewValue(a); }
static inline int J_Type(JV *v) { return jtype(v->Type()); }
static inline JSize J_SizeOf(JV *v) { return v->Size(); }
static inline bool J_ParseFast(JV *v, const char * a0) { return v->ParseFast(a0); }
static inline bool J_ParseLen(JV *v, const char * a0, JSize a1) { return v->ParseLen(a0, a1); }
static inline bool J_Parse(JV *v, const char * a0) { return v->Parse(a0); }
static inline const char * J_Stringify(JV *v) { return v->Stringify(); }
static inline const char * J_GetStrFast(JV *v, JSize * a0) { return v->GetStrFast(a0); }
static inline const char * J_GetUnEscapeStr(JV *v) { return v->GetUnEscapeStr(); }
static inline const char * J_GetStr(JV *v) { return v->GetStr(); }
static inline const char * J_GetNumFast(JV *v, JSize * a0) { return v->GetNumFast(a0); }
static inline const char * J_GetNumStr(JV *v) { return v->GetNumStr(); }
static inline const double * J_GetNum(JV *v) { return v->GetNum(); }
static inline const double * J_GetDouble(JV *v) { return v->GetDouble(); }
static inline const int * J_GetInt(JV *v) { return v->GetInt(); }
static inline const long * J_GetLong(JV *v) { return v->GetLong(); }
static inline const long long * J_GetLongLong(JV *v) { return v->GetLongLong(); }
static inline const JBool * J_GetBool(JV *v) { return v->GetBool(); }
static inline bool J_IsNull(JV *v) { return v->IsNull(); }
static inline const char * J_GetKey(JV *v) { return v->GetKey(); }
static inline const char * J_GetUnEscapeKey(JV *v) { return v->GetUnEscapeKey(); }
static inline const char * J_GetKeyFast(JV *v, JSize * a0) { return v->GetKeyFast(a0); }
static inline JV * J_ObjGet(JV *v, const char * a0) { return (JV *)v->ObjGet(a0); }
static inline JV * J_ObjGetLen(JV *v, const char * a0, JSize a1) { return (JV *)v->ObjGetLen(a0, a1); }
static inline JV * J_ArrayGet(JV *v, JSize a0) { return (JV *)v->ArrayGet(a0); }
static inline JV * J_Begin(JV *v) { return (JV *)v->Begin(); }
static inline JV * J_Next(JV *v) { return (JV *)v->Next(); }
static inline JV * J_Copy(JV *v) { return (JV *)v->Copy(); }
static inline bool J_Move(JV *v) { return v->Move(); }
static inline void J_SetNull(JV *v) { v->SetNull(); }
static inline void J_SetBool(JV *v, bool a0) { v->SetBool(a0); }
static inline bool J_SetNumStrFast(JV *v, const char * a0) { return v->SetNumStrFast(a0); }
static inline bool J_SetNumStrLenFast(JV *v, const char * a0, JSize a1) { return v->SetNumStrLenFast(a0, a1); }
static inline bool J_SetNumStr(JV *v, const char * a0) { return v->SetNumStr(a0); }
static inline bool J_SetNumStrLen(JV *v, const char * a0, JSize a1) { return v->SetNumStrLen(a0, a1); }
static inline bool J_SetNum(JV *v, double a0) { return v->SetNum(a0); }
static inline bool J_SetDouble(JV *v, double a0) { return v->SetDouble(a0); }
static inline bool J_SetInt(JV *v, int a0) { return v->SetInt(a0); }
static inline bool J_SetLong(JV *v, long a0) { return v->SetLong(a0); }
static inline bool J_SetLongLong(JV *v, long long a0) { return v->SetLongLong(a0); }
static inline bool J_SetStrFast(JV *v, const char * a0) { return v->SetStrFast(a0); }
static inline bool J_SetStrLenFast(JV *v, const char * a0, JSize a1) { return v->SetStrLenFast(a0, a1); }
static inline bool J_SetStr(JV *v, const char * a0) { return v->SetStr(a0); }
static inline bool J_SetStrLen(JV *v, const char * a0, JSize a1) { return v->SetStrLen(a0, a1); }
static inline bool J_SetStrEscape(JV *v, const char * a0) { return v->SetStrEscape(a0); }
static inline bool J_SetStrLenEscape(JV *v, const char * a0, JSize a1) { return v->SetStrLenEscape(a0, a1); }
static inline bool J_SetKeyFast(JV *v, const char * a0) { return v->SetKeyFast(a0); }
static inline bool J_SetKeyLenFast(JV *v, const char * a0, JSize a1) { return v->SetKeyLenFast(a0, a1); }
static inline bool J_SetKey(JV *v, const char * a0) { return v->SetKey(a0); }
static inline bool J_SetKeyLen(JV *v, const char * a0, JSize a1) { return v->SetKeyLen(a0, a1); }
static inline bool J_SetKeyEscape(JV *v, const char * a0) { return v->SetKeyEscape(a0); }
static inline bool J_SetKeyLenEscape(JV *v, const char * a0, JSize a1) { return v->SetKeyLenEscape(a0, a1); }
static inline void J_SetArray(JV *v) { v->SetArray(); }
static inline void J_SetObj(JV *v) { v->SetObj(); }
static inline bool J_SetFast(JV *v, JV * a0) { return v->SetFast(a0); }
static inline bool J_Set(JV *v, JV * a0) { return v->Set(a0); }
static inline bool J_ObjAddFast(JV *v, JV * a0) { return v->ObjAddFast(a0); }
static inline bool J_ObjAdd(JV *v, JV * a0) { return v->ObjAdd(a0); }
static inline bool J_ArrayAddFast(JV *v, JV * a0) { return v->ArrayAddFast(a0); }
static inline bool J_ArrayAdd(JV *v, JV * a0) { return v->ArrayAdd(a0); }
static inline bool J_ArrayDel(JV *v, JSize a0) { return v->ArrayDel(a0); }
static inline bool J_ObjDel(JV *v, const char * a0) { return v->ObjDel(a0); }
#elif BIND == 4
#include "zzzjson.h"
typedef zj::Value JV; typedef zj::Allocator JA; typedef zj::Size JSize; typedef bool JBool;
enum { JBoolT = zj::JSONTypeBool, JArr = zj::JSONTypeArray, JObj = zj::JSONTypeObject, JStr = zj::JSONTypeString, JNull = zj::JSONTypeNull, JNumT = zj::JSONTypeNumber };
static inline JA *J_NewAllocator(void) { return zj::NewAllocator(); }
static inline void J_ReleaseAllocator(JA *a) { zj::ReleaseAllocator(a); }
static inline JV *J_NewValue(JA *a) { return zj::NewValue(a); }
static inline int J_Type(JV *v) { const zj::JSONType *t = zj::Type(v); return t ? (int)*t : 0; }
static inline JSize J_SizeOf(JV *v) { return zj::SizeOf(v); }
static inline bool J_ParseFast(JV *v, const char * a0) { return zj::ParseFast(v, a0); }
static inline bool J_ParseLen(JV *v, const char * a0, JSize a1) { return zj::ParseLen(v, a0, a1); }
static inline bool J_Parse(JV *v, const char * a0) { return zj::Parse(v, a0); }
static inline const char * J_Stringify(JV *v) { return zj::Stringify(v); }
static inline const char * J_GetStrFast(JV *v, JSize * a0) { return zj::GetStrFast(v, a0); }
static inline const char * J_GetUnEscapeStr(JV *v) { return zj::GetUnEscapeStr(v); }
static inline const char * J_GetStr(JV *v) { return zj::GetStr(v); }
static inline const char * J_GetNumFast(JV *v, JSize * a0) { return zj::GetNumFast(v, a0); }
static inline const char * J_GetNumStr(JV *v) { return zj::GetNumStr(v); }
static inline const double * J_GetNum(JV *v) { return zj::GetNum(v); }
static inline const double * J_GetDouble(JV *v) { return zj::GetDouble(v); }
static inline const int * J_GetInt(JV *v) { return zj::GetInt(v); }
static inline const long * J_GetLong(JV *v) { return zj::GetLong(v); }
static inline const long long * J_GetLongLong(JV *v) { return zj::GetLongLong(v); }
static inline const JBool * J_GetBool(JV *v) { return zj::GetBool(v); }
static inline bool J_IsNull(JV *v) { return zj::IsNull(v); }
static inline const char * J_GetKey(JV *v) { return zj::GetKey(v); }
static inline const char * J_GetUnEscapeKey(JV *v) { return zj::GetUnEscapeKey(v); }
static inline const char * J_GetKeyFast(JV *v, JSize * a0) { return zj::GetKeyFast(v, a0); }
static inline JV * J_ObjGet(JV *v, const char * a0) { return zj::ObjGet(v, a0); }
static inline JV * J_ObjGetLen(JV *v, const char * a0, JSize a1) { return zj::ObjGetLen(v, a0, a1); }
static inline JV * J_ArrayGet(JV *v, JSize a0) { return zj::ArrayGet(v, a0); }
static inline JV * J_Begin(JV *v) { return zj::Begin(v); }
static inline JV * J_Next(JV *v) { return zj::Next(v); }
static inline JV * J_Copy(JV *v) { return zj::Copy(v); }
static inline bool J_Move(JV *v) { return zj::Move(v); }
static inline void J_SetNull(JV *v) { zj::SetNull(v); }
static inline void J_SetBool(JV *v, bool a0) { zj::SetBool(v, a0); }
static inline bool J_SetNumStrFast(JV *v, const char * a0) { return zj::SetNumStrFast(v, a0); }
static inline bool J_SetNumStrLenFast(JV *v, const char * a0, JSize a1) { return zj::SetNumStrLenFast(v, a0, a1); }
static inline bool J_SetNumStr(JV *v, const char * a0) { return zj::SetNumStr(v, a0); }
static inline bool J_SetNumStrLen(JV *v, const char * a0, JSize a1) { return zj::SetNumStrLen(v, a0, a1); }
static inline bool J_SetNum(JV *v, double a0) { return zj::SetNum(v, a0); }
static inline bool J_SetDouble(JV *v, double a0) { return zj::SetDouble(v, a0); }
static inline bool J_SetInt(JV *v, int a0) { return zj::SetInt(v, a0); }
static inline bool J_SetLong(JV *v, long a0) { return zj::SetLong(v, a0); }
static inline bool J_SetLongLong(JV *v, long long a0) { return zj::SetLongLong(v, a0); }
static inline bool J_SetStrFast(JV *v, const char * a0) { return zj::SetStrFast(v, a0); }
static inline bool J_SetStrLenFast(JV *v, const char * a0, JSize a1) { return zj::SetStrLenFast(v, a0, a1); }
static inline bool J_SetStr(JV *v, const char * a0) { return zj::SetStr(v, a0); }
static inline bool J_SetStrLen(JV *v, const char * a0, JSize a1) { return zj::SetStrLen(v, a0, a1); }
static inline bool J_SetStrEscape(JV *v, const char * a0) { return zj::SetStrEscape(v, a0); }
static inline bool J_SetStrLenEscape(JV *v, const char * a0, JSize a1) { return zj::SetStrLenEscape(v, a0, a1); }
static inline bool J_SetKeyFast(JV *v, const char * a0) { return zj::SetKeyFast(v, a0); }
static inline bool J_SetKeyLenFast(JV *v, const char * a0, JSize a1) { return zj::SetKeyLenFast(v, a0, a1); }
static inline bool J_SetKey(JV *v, const char * a0) { return zj::SetKey(v, a0); }
static inline bool J_SetKeyLen(JV *v, const char * a0, JSize a1) { return zj::SetKeyLen(v, a0, a1); }
static inline bool J_SetKeyEscape(JV *v, const char * a0) { return zj::SetKeyEscape(v, a0); }
static inline bool J_SetKeyLenEscape(JV *v, const char * a0, JSize a1) { return zj::SetKeyLenEscape(v, a0, a1); }
static inline void J_SetArray(JV *v) { zj::SetArray(v); }
static inline void J_SetObj(JV *v) { zj::SetObj(v); }
static inline bool J_SetFast(JV *v, JV * a0) { return zj::SetFast(v, a0); }
static inline bool J_Set(JV *v, JV * a0) { return zj::Set(v, a0); }
static inline bool J_ObjAddFast(JV *v, JV * a0) { return zj::ObjAddFast(v, a0); }
static inline bool J_ObjAdd(JV *v, JV * a0) { return zj::ObjAdd(v, a0); }
static inline bool J_ArrayAddFast(JV *v, JV * a0) { return zj::ArrayAddFast(v, a0); }
static inline bool J_ArrayAdd(JV *v, JV * a0) { return zj::ArrayAdd(v, a0); }
static inline bool J_ArrayDel(JV *v, JSize a0) { return zj::ArrayDel(v, a0); }
static inline bool J_ObjDel(JV *v, const char * a0) { return zj::ObjDel(v, a0); }
#elif BIND == 5
#include "beta/zzzjson_beta.h"
typedef struct z_Value JV; typedef struct z_Allocator JA; typedef z_SIZE JSize; typedef z_BOOL JBool;
enum { JBoolT = z_JSONTYPEBOOL, JArr = z_JSONTYPEARRAY, JObj = z_JSONTYPEOBJ, JStr = z_JSONTYPESTRING, JNull = z_JSONTYPENULL, JNumT = z_JSONTYPENUM };
static inline JA *J_NewAllocator(void) { return z_AllocatorNew(); }
static inline void J_ReleaseAllocator(JA *a) { z_AllocatorRelease(a); }
static inline JV *J_NewValue(JA *a) { return z_ValueNew(a); }
static inline int J_Type(JV *v) { const z_JSONType *t = z_ValueType(v); return t ? (int)*t : 0; }
static inline JSize J_SizeOf(JV *v) { return z_ValueSize(v); }
static inline bool J_ParseFast(JV *v, const char * a0) { return z_ValueParseFast(v, a0); }
static inline bool J_ParseLen(JV *v, const char * a0, JSize a1) { return z_ValueParseLen(v, a0, a1); }
static inline bool J_Parse(JV *v, const char * a0) { return z_ValueParse(v, a0); }
static inline const char * J_Stringify(JV *v) { return z_ValueStringify(v); }
static inline const char * J_GetStrFast(JV *v, JSize * a0) { return z_ValueGetStringFast(v, a0); }
static inline const char * J_GetUnEscapeStr(JV *v) { return z_ValueGetUnEscapeString(v); }
static inline const char * J_GetStr(JV *v) { return z_ValueGetString(v); }
static inline const char * J_GetNumFast(JV *v, JSize * a0) { return z_ValueGetNumFast(v, a0); }
static inline const char * J_GetNumStr(JV *v) { return z_ValueGetNumStr(v); }
static inline const double * J_GetNum(JV *v) { return z_ValueGetNum(v); }
static inline const JBool * J_GetBool(JV *v) { return z_ValueGetBool(v); }
static inline bool J_IsNull(JV *v) { return z_ValueIsNull(v); }
static inline const char * J_GetKey(JV *v) { return z_ValueGetKey(v); }
static inline const char * J_GetUnEscapeKey(JV *v) { return z_ValueGetUnEscapeKey(v); }
static inline const char * J_GetKeyFast(JV *v, JSize * a0) { return z_ValueGetKeyFast(v, a0); }
static inline JV * J_ObjGet(JV *v, const char * a0) { return z_ValueObjGet(v, a0); }
static inline JV * J_ObjGetLen(JV *v, const char * a0, JSize a1) { return z_ValueObjGetLen(v, a0, a1); }
static inline JV * J_ArrayGet(JV *v, JSize a0) { return z_ValueArrayGet(v, a0); }
static inline JV * J_Begin(JV *v) { return z_ValueBegin(v); }
static inline JV * J_Next(JV *v) { return z_ValueNext(v); }
static inline JV * J_Copy(JV *v) { return z_ValueCopy(v); }
static inline bool J_Move(JV *v) { return z_ValueMove(v); }
static inline void J_SetNull(JV *v) { z_ValueSetNull(v); }
static inline void J_SetBool(JV *v, bool a0) { z_ValueSetBool(v, a0); }
static inline bool J_SetNumStrFast(JV *v, const char * a0) { return z_ValueSetNumStrFast(v, a0); }
static inline bool J_SetNumStrLenFast(JV *v, const char * a0, JSize a1) { return z_ValueSetNumStrLenFast(v, a0, a1); }
static inline bool J_SetNumStr(JV *v, const char * a0) { return z_ValueSetNumStr(v, a0); }
static inline bool J_SetNumStrLen(JV *v, const char * a0, JSize a1) { return z_ValueSetNumStrLen(v, a0, a1); }
static inline bool J_SetNum(JV *v, double a0) { return z_ValueSetNum(v, a0); }
static inline bool J_SetStrFast(JV *v, const char * a0) { return z_ValueSetStrFast(v, a0); }
static inline bool J_SetStrLenFast(JV *v, const char * a0, JSize a1) { return z_ValueSetStrLenFast(v, a0, a1); }
static inline bool J_SetStr(JV *v, const char * a0) { return z_ValueSetStr(v, a0); }
static inline bool J_SetStrLen(JV *v, const char * a0, JSize a1) { return z_ValueSetStrLen(v, a0, a1); }
static inline bool J_SetKeyFast(JV *v, const char * a0) { return z_ValueSetKeyFast(v, a0); }
static inline bool J_SetKeyLenFast(JV *v, const char * a0, JSize a1) { return z_ValueSetKeyLenFast(v, a0, a1); }
static inline bool J_SetKey(JV *v, const char * a0) { return z_ValueSetKey(v, a0); }
static inline bool J_SetKeyLen(JV *v, const char * a0, JSize a1) { return z_ValueSetKeyLen(v, a0, a1); }
static inline void J_SetArray(JV *v) { z_ValueSetArray(v); }
static inline void J_SetObj(JV *v) { z_ValueSetObj(v); }
static inline bool J_SetFast(JV *v, JV * a0) { return z_ValueSetFast(v, a0); }
static inline bool J_Set(JV *v, JV * a0) { return z_ValueSet(v, a0); }
static inline bool J_ObjAddFast(JV *v, JV * a0) { return z_ValueObjAddFast(v, a0); }
static inline bool J_ObjAdd(JV *v, JV * a0) { return z_ValueObjAdd(v, a0); }
static inline bool J_ArrayAddFast(JV *v, JV * a0) { return z_ValueArrayAddFast(v, a0); }
static inline bool J_ArrayAdd(JV *v, JV * a0) { return z_ValueArrayAdd(v, a0); }
static inline bool J_ArrayDel(JV *v, JSize a0) { return z_ValueArrayDel(v, a0); }
static inline bool J_ObjDel(JV *v, const char * a0) { return z_ValueObjDel(v, a0); }
#define NO_ESCAPE_SETTERS 1
#define NO_INT_API 1
#endif
#endif
