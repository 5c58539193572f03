"""writes api.h: one name (J_*) for every public operation, over six bindings"""
A = '''ParseFast:bool:cs ParseLen:bool:cs,sz Parse:bool:cs Stringify:cs: GetStrFast:cs:psz GetUnEscapeStr:cs: GetStr:cs: GetNumFast:cs:psz GetNumStr:cs: GetNum:pd: GetDouble:pd: GetInt:pi: GetLong:pl: GetLongLong:pll: GetBool:pb: IsNull:bool:
GetKey:cs: GetUnEscapeKey:cs: GetKeyFast:cs:psz ObjGet:V:cs ObjGetLen:V:cs,sz ArrayGet:V:sz Begin:V: Next:V: Copy:V: Move:bool: SetNull:void: SetBool:void:b SetNumStrFast:bool:cs SetNumStrLenFast:bool:cs,sz SetNumStr:bool:cs SetNumStrLen:bool:cs,sz
SetNum:bool:d SetDouble:bool:d SetInt:bool:i SetLong:bool:l SetLongLong:bool:ll SetStrFast:bool:cs SetStrLenFast:bool:cs,sz SetStr:bool:cs SetStrLen:bool:cs,sz SetStrEscape:bool:cs SetStrLenEscape:bool:cs,sz SetKeyFast:bool:cs SetKeyLenFast:bool:cs,sz
SetKey:bool:cs SetKeyLen:bool:cs,sz SetKeyEscape:bool:cs SetKeyLenEscape:bool:cs,sz SetArray:void: SetObj:void: SetFast:bool:V Set:bool:V ObjAddFast:bool:V ObjAdd:bool:V ArrayAddFast:bool:V ArrayAdd:bool:V ArrayDel:bool:sz ObjDel:bool:cs'''.split()
T = dict(cs='const char *', sz='JSize', psz='JSize *', pd='const double *', pi='const int *', pl='const long *', pll='const long long *', pb='const JBool *', V='JV *', b='bool', d='double', i='int', l='long', ll='long long', bool='bool', void='void')
beta_missing = 'GetDouble GetInt GetLong GetLongLong SetDouble SetInt SetLong SetLongLong SetStrEscape SetStrLenEscape SetKeyEscape SetKeyLenEscape'.split()
beta_name = dict(GetStrFast='GetStringFast', GetUnEscapeStr='GetUnEscapeString', GetStr='GetString')
o = []
p = o.append
p('/* generated by gen_api.py: the public operations under one name, over the bindings the repository ships */')
p('#ifndef API_H\n#define API_H\n#include "vf.h"\n#ifndef BIND\n#define BIND 0\n#endif')
p('/* BIND: 0 zj_* in C; 1 short names in C; 2 zj_Value member functions; 3 zzzjson.hpp; 4 short names in namespace zj; 5 beta/zzzjson_beta.h; 6 zj_* compiled as C++ */')
def fns(body, skip=()):
    for a in A:
        n, r, ar = a.split(':')
        if n in skip: continue
        ps = [x for x in ar.split(',') if x]
        sig = ''.join(', %s a%d' % (T[x], k) for k, x in enumerate(ps)); args = ['a%d' % k for k in range(len(ps))]
        p('static inline %s J_%s(JV *v%s) { %s%s; }' % (T[r], n, sig, '' if r == 'void' else 'return ', body(n, r, ps, args)))
def call(pre, nm=lambda n: n):
    return lambda n, r, ps, args: '%s%s(%s)' % (pre, nm(n), ', '.join(['v'] + args))
def consts(pre, obj='Object', num='Number', extra=''):
    p('enum { JBoolT = %sBool, JArr = %sArray, JObj = %s%s, JStr = %sString, JNull = %sNull, JNumT = %s%s };' % (pre, pre, pre, obj, pre, pre, pre, num))
# 0, 6
p('#if BIND == 0 || BIND == 6 || BIND == 1')
p('#include "zzzjson.h"\n#if BIND == 6\nusing namespace zj;\n#endif')
p('typedef zj_Value JV; typedef zj_Allocator JA; typedef zj_Size JSize; typedef bool JBool;')
consts('zj_JSONType')
p('#if BIND == 1')
p('static inline JA *J_NewAllocator(void) { return NewAllocator(); }\nstatic inline void J_ReleaseAllocator(JA *a) { ReleaseAllocator(a); }\nstatic inline JV *J_NewValue(JA *a) { return NewValue(a); }\nstatic inline int J_Type(JV *v) { const JSONType *t = Type(v); return t ? (int)*t : 0; }\nstatic inline JSize J_SizeOf(JV *v) { return SizeOf(v); }')
fns(call(''))
p('#else')
p('static inline JA *J_NewAllocator(void) { return zj_NewAllocator(); }\nstatic inline void J_ReleaseAllocator(JA *a) { zj_ReleaseAllocator(a); }\nstatic inline JV *J_NewValue(JA *a) { return zj_NewValue(a); }\nstatic inline int J_Type(JV *v) { const zj_JSONType *t = zj_Type(v); return t ? (int)*t : 0; }\nstatic inline JSize J_SizeOf(JV *v) { return zj_SizeOf(v); }')
fns(call('zj_'))
p('#endif')
# 2
p('#elif BIND == 2\n#include "zzzjson.h"\ntypedef zj::Value JV; typedef zj::Allocator JA; typedef zj::Size JSize; typedef bool JBool;')
consts('zj::JSONType')
p('static inline JA *J_NewAllocator(void) { return new (malloc(sizeof(JA))) JA(); }\nstatic inline void J_ReleaseAllocator(JA *a) { a->~JA(); free(a); }\nstatic inline JV *J_NewValue(JA *a) { JV *v = JV::NewValue(a); vf_assert(v->Allocator() == a, "a value knows its allocator"); return v; }\nstatic inline int J_Type(JV *v) { const zj::JSONType *t = v->Type(); return t ? (int)*t : 0; }\nstatic inline JSize J_SizeOf(JV *v) { return v->SizeOf(); }')
fns(lambda n, r, ps, args: 'v->%s(%s)' % (n, ', '.join(args)))
# 3
p('#elif BIND == 3\n#include "zzzjson.hpp"\ntypedef zzzjson::Value JV; typedef zzzjson::Allocator JA; typedef zzzjson::SIZE JSize; typedef bool JBool;')
consts('zzzjson::JSONType')if 0 else p('enum { JBoolT = zj::JSONTypeBool, JArr = zj::JSONTypeArray, JObj = zj::JSONTypeObject, JStr = zj::JSONTypeString, JNull = zj::JSONTypeNull, JNumT = zj::JSONTypeNumber };')
p('static inline int jtype(const zzzjson::JSONType *t) { if (!t) return 0; if (*t == zzzjson::JSONTypeArray) return JArr; if (*t == zzzjson::JSONTypeObject) return JObj; if (*t == zzzjson::JSONTypeString) return JStr; if (*t == zzzjson::JSONTypeNumber) return JNumT; if (*t == zzzjson::JSONTypeBool) return JBoolT; if (*t == zzzjson::JSONTypeNull) return JNull; return 99; }')
p('/* values are made in turn by the static function and from another value */\nstatic JV *vf_last; static JA *vf_lastA; static int vf_turn;\nstatic inline JA *J_NewAllocator(void) { return new (malloc(sizeof(JA))) JA(); }\nstatic inline void J_ReleaseAllocator(JA *a) { if (vf_lastA == a) vf_lastA = 0; a->~JA(); free(a); }\nstatic inline JV *J_NewValue(JA *a) { if (vf_lastA == a && (vf_turn ^= 1)) return vf_last->NewValue(); vf_lastA = a; return vf_last = JV::NewValue(a); }\nstatic inline int J_Type(JV *v) { return jtype(v->Type()); }\nstatic inline JSize J_SizeOf(JV *v) { return v->Size(); }')
fns(lambda n, r, ps, args: ('(JV *)' if r == 'V' else '') + 'v->%s(%s)' % (n, ', '.join(args)))
# 4
p('#elif BIND == 4\n#include "zzzjson.h"\ntypedef zj::Value JV; typedef zj::Allocator JA; typedef zj::Size JSize; typedef bool JBool;')
consts('zj::JSONType')
p('static inline JA *J_NewAllocator(void) { return zj::NewAllocator(); }\nstatic inline void J_ReleaseAllocator(JA *a) { zj::ReleaseAllocator(a); }\nstatic inline JV *J_NewValue(JA *a) { return zj::NewValue(a); }\nstatic inline int J_Type(JV *v) { const zj::JSONType *t = zj::Type(v); return t ? (int)*t : 0; }\nstatic inline JSize J_SizeOf(JV *v) { return zj::SizeOf(v); }')
fns(call('zj::'))
# 5
p('#elif BIND == 5\n#include "beta/zzzjson_beta.h"\ntypedef struct z_Value JV; typedef struct z_Allocator JA; typedef z_SIZE JSize; typedef z_BOOL JBool;')
p('enum { JBoolT = z_JSONTYPEBOOL, JArr = z_JSONTYPEARRAY, JObj = z_JSONTYPEOBJ, JStr = z_JSONTYPESTRING, JNull = z_JSONTYPENULL, JNumT = z_JSONTYPENUM };')
p('static inline JA *J_NewAllocator(void) { return z_AllocatorNew(); }\nstatic inline void J_ReleaseAllocator(JA *a) { z_AllocatorRelease(a); }\nstatic inline JV *J_NewValue(JA *a) { return z_ValueNew(a); }\nstatic inline int J_Type(JV *v) { const z_JSONType *t = z_ValueType(v); return t ? (int)*t : 0; }\nstatic inline JSize J_SizeOf(JV *v) { return z_ValueSize(v); }')
fns(call('z_Value', lambda n: beta_name.get(n, n)), beta_missing)
p('#define NO_ESCAPE_SETTERS 1\n#define NO_INT_API 1')
p('#endif\n#endif')
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), 'api.h'), 'w').write('\n'.join(o) + '\n')
