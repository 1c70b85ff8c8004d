/* Reference values for the C harnesses: a plain tree model with a small text
   language, built through the creation interface and read back through the
   reader interface.

   text:  ~ None   T F booleans   12 -3 integers (12u forces unsigned)
          1.5f floats (inff, -inff)   'abc' 8-bit string   "abc" wide string,
          \xHH; and \uHHHH; \UHHHHHHHH; escapes end with a semicolon
          <0110> bits   [a b] vector   #i8[1 2] typed vector   {a b} set
          {a:b c:d} map   {:} empty map   {} empty set
          (5*x) five times x (inside containers)                              */
#ifndef VAL_H
#define VAL_H
#include <math.h>
#include <pointless/pointless.h>
#include "mc.h"

typedef struct V V;
struct V {
	char k;             /* n b i f s v t B S M */
	char wide;          /* strings: 32-bit storage; integers: unsigned storage */
	uint32_t t;         /* typed vectors: POINTLESS_VECTOR_* */
	__int128 i;
	float f;
	uint32_t n;
	uint32_t* s;        /* string */
	uint8_t* bits;      /* one byte per bit */
	V** v;              /* items; keys of maps and sets */
	V** w;              /* values of maps */
	int bad;            /* inconsistent structure found while reading */
};

static V* v_new(char k) { V* v = calloc(1, sizeof(V)); v->k = k; return v; }
static void v_push(V* a, V* x, V* y)
{
	a->v = realloc(a->v, (a->n + 1) * sizeof(V*));
	a->v[a->n] = x;
	if (a->k == 'M') {
		a->w = realloc(a->w, (a->n + 1) * sizeof(V*));
		a->w[a->n] = y;
	}
	a->n++;
}
static void v_free(V* v)
{
	if (v->k == 'v' || v->k == 't' || v->k == 'S' || v->k == 'M')
		for (uint32_t i = 0; i < v->n; i++) {
			v_free(v->v[i]);
			if (v->w) v_free(v->w[i]);
		}
	free(v->s); free(v->bits); free(v->v); free(v->w); free(v);
}
static V* v_int(__int128 i) { V* v = v_new('i'); v->i = i; v->wide = i > INT32_MAX; return v; }
static V* v_float(float f) { V* v = v_new('f'); v->f = f; return v; }
static V* v_bool(int b) { V* v = v_new('b'); v->i = b != 0; return v; }
static V* v_str8(const char* s) { V* v = v_new('s'); v->n = strlen(s); v->s = calloc(v->n + 1, 4); for (uint32_t i = 0; i < v->n; i++) v->s[i] = (uint8_t)s[i]; return v; }
static V* v_bits(const char* s) { V* v = v_new('B'); v->n = strlen(s); v->bits = calloc(v->n + 1, 1); for (uint32_t i = 0; i < v->n; i++) v->bits[i] = s[i] == '1'; return v; }
static V* v_copy(V* a)
{
	V* v = malloc(sizeof(V));
	*v = *a;
	if (a->s) { v->s = malloc((a->n + 1) * 4); memcpy(v->s, a->s, (a->n + 1) * 4); }
	if (a->bits) { v->bits = malloc(a->n + 1); memcpy(v->bits, a->bits, a->n + 1); }
	if (a->v) { v->v = malloc(a->n * sizeof(V*)); for (uint32_t i = 0; i < a->n; i++) v->v[i] = v_copy(a->v[i]); }
	if (a->w) { v->w = malloc(a->n * sizeof(V*)); for (uint32_t i = 0; i < a->n; i++) v->w[i] = v_copy(a->w[i]); }
	return v;
}

/* -- parser ---------------------------------------------------------------- */
static struct { const char* name; uint32_t t; __int128 lo, hi; int size; } v_types[] = {
	{"i8", POINTLESS_VECTOR_I8, INT8_MIN, INT8_MAX, 1}, {"u8", POINTLESS_VECTOR_U8, 0, UINT8_MAX, 1},
	{"i16", POINTLESS_VECTOR_I16, INT16_MIN, INT16_MAX, 2}, {"u16", POINTLESS_VECTOR_U16, 0, UINT16_MAX, 2},
	{"i32", POINTLESS_VECTOR_I32, INT32_MIN, INT32_MAX, 4}, {"u32", POINTLESS_VECTOR_U32, 0, UINT32_MAX, 4},
	{"i64", POINTLESS_VECTOR_I64, INT64_MIN, INT64_MAX, 8}, {"u64", POINTLESS_VECTOR_U64, 0, UINT64_MAX, 8},
	{"f", POINTLESS_VECTOR_FLOAT, 0, 0, 4},
};
#define V_NTYPES 9

static const char* vp;
static void vp_ws(void) { while (*vp == ' ' || *vp == ',') vp++; }
static V* v_parse_(void);
static void vp_items(V* a, char end)
{
	for (;;) {
		vp_ws();
		if (*vp == end) { vp++; return; }
		if (*vp == 0) mc_die("value text ends early");
		if (*vp == ':') { a->k = 'M'; vp++; continue; }
		int rep = 1;
		if (*vp == '(') {
			vp++;
			rep = strtol(vp, (char**)&vp, 10);
			if (*vp++ != '*') mc_die("value text: * expected");
		}
		V* x = v_parse_();
		if (rep != 1 || *vp == ')') { vp_ws(); if (*vp++ != ')') mc_die("value text: ) expected"); }
		V* y = 0;
		vp_ws();
		if (*vp == ':') { a->k = 'M'; vp++; y = v_parse_(); }
		for (int i = 0; i < rep; i++) v_push(a, i ? v_copy(x) : x, y ? (i ? v_copy(y) : y) : 0);
		if (rep == 0) v_free(x);
	}
}
static V* v_parse_(void)
{
	vp_ws();
	char c = *vp;
	if (c == '~') { vp++; return v_new('n'); }
	if (c == 'T' || c == 'F') { vp++; return v_bool(c == 'T'); }
	if (c == '\'' || c == '"') {
		V* v = v_new('s');
		v->wide = c == '"';
		vp++;
		v->s = calloc(strlen(vp) + 1, 4);
		while (*vp != c) {
			if (!*vp) mc_die("value text: open string");
			if (*vp == '\\') {
				v->s[v->n++] = strtoul(vp + 2, (char**)&vp, 16);
				if (*vp++ != ';') mc_die("value text: ; expected");
			} else
				v->s[v->n++] = (uint8_t)*vp++;
		}
		vp++;
		return v;
	}
	if (c == '<') {
		char b[256];
		int n = 0;
		for (vp++; *vp != '>'; vp++) b[n++] = *vp;
		b[n] = 0;
		vp++;
		return v_bits(b);
	}
	if (c == '[') { vp++; V* v = v_new('v'); vp_items(v, ']'); return v; }
	if (c == '{') { vp++; V* v = v_new('S'); vp_items(v, '}'); return v; }
	if (c == '#') {
		V* v = v_new('t');
		vp++;
		for (int i = 0; i < V_NTYPES; i++) {
			size_t l = strlen(v_types[i].name);
			if (strncmp(vp, v_types[i].name, l) == 0 && vp[l] == '[') { v->t = v_types[i].t; vp += l + 1; vp_items(v, ']'); return v; }
		}
		mc_die("value text: vector type");
	}
	if (strncmp(vp, "inff", 4) == 0) { vp += 4; return v_float(INFINITY); }
	if (strncmp(vp, "-inff", 5) == 0) { vp += 5; return v_float(-INFINITY); }
	char *e, *e2;
	double d = strtod(vp, &e2);
	if (e2 == vp) mc_die("value text: what is this?");
	if (*e2 == 'f') { vp = e2 + 1; return v_float((float)d); }
	int neg = *vp == '-';
	uint64_t u = strtoull(vp + neg, &e, 10);
	vp = e;
	V* v = v_int(neg ? -(__int128)u : (__int128)u);
	if (*vp == 'u') { vp++; v->wide = 1; }
	return v;
}
static V* v_parse(const char* s)
{
	vp = s;
	V* v = v_parse_();
	vp_ws();
	if (*vp) mc_die("value text: trailing");
	return v;
}

/* -- show ------------------------------------------------------------------ */
static void v_show_(FILE* f, V* v)
{
	if (!v) { fputs("(null)", f); return; }
	switch (v->k) {
	case 'n': fputc('~', f); break;
	case 'b': fputc(v->i ? 'T' : 'F', f); break;
	case 'i': if (v->i < 0) fprintf(f, "-%llu", (unsigned long long)-v->i); else fprintf(f, "%llu%s", (unsigned long long)v->i, v->wide ? "u" : ""); break;
	case 'f': fprintf(f, "%.9gf", v->f); break;
	case 's':
		fputc(v->wide ? '"' : '\'', f);
		for (uint32_t i = 0; i < v->n; i++) if (v->s[i] >= 32 && v->s[i] < 127 && v->s[i] != '\\' && v->s[i] != '\'') fputc(v->s[i], f); else fprintf(f, "\\x%x;", v->s[i]);
		fputc(v->wide ? '"' : '\'', f);
		break;
	case 'B': fputc('<', f); for (uint32_t i = 0; i < v->n; i++) fputc('0' + v->bits[i], f); fputc('>', f); break;
	case 't': for (int i = 0; i < V_NTYPES; i++) if (v_types[i].t == v->t) fprintf(f, "#%s", v_types[i].name); /* fall through */
	case 'v': fputc('[', f); for (uint32_t i = 0; i < v->n; i++) { if (i) fputc(' ', f); v_show_(f, v->v[i]); } fputc(']', f); break;
	case 'S': fputc('{', f); for (uint32_t i = 0; i < v->n; i++) { if (i) fputc(' ', f); v_show_(f, v->v[i]); } fputc('}', f); break;
	case 'M': fputc('{', f); if (!v->n) fputc(':', f); for (uint32_t i = 0; i < v->n; i++) { if (i) fputc(' ', f); v_show_(f, v->v[i]); fputc(':', f); v_show_(f, v->w[i]); } fputc('}', f); break;
	default: fprintf(f, "?%c", v->k);
	}
}
/* one of four rotating buffers */
static const char* v_show(V* v)
{
	static char buf[4][1500];
	static int k;
	char* b = buf[k++ & 3];
	char* p = 0;
	size_t n = 0;
	FILE* f = open_memstream(&p, &n);
	v_show_(f, v);
	fclose(f);
	snprintf(b, sizeof(buf[0]), "%s", p);
	free(p);
	return b;
}

/* -- equality of content --------------------------------------------------- */
static int v_isvec(V* v) { return v->k == 'v' || v->k == 't'; }
static int v_same(V* a, V* b)   /* same value and type, representation ignored, sets and maps as multisets */
{
	if (v_isvec(a) && v_isvec(b)) {
		if (a->n != b->n) return 0;
		for (uint32_t i = 0; i < a->n; i++) if (!v_same(a->v[i], b->v[i])) return 0;
		return 1;
	}
	if (a->k != b->k) return 0;
	switch (a->k) {
	case 'n': return 1;
	case 'b': case 'i': return a->i == b->i;
	case 'f': return memcmp(&a->f, &b->f, 4) == 0 || (a->f != a->f && b->f != b->f);
	case 's': return a->n == b->n && memcmp(a->s, b->s, a->n * 4) == 0;
	case 'B': return a->n == b->n && memcmp(a->bits, b->bits, a->n) == 0;
	case 'S': case 'M': {
		if (a->n != b->n) return 0;
		char* used = calloc(b->n + 1, 1);
		int ok = 1;
		for (uint32_t i = 0; i < a->n && ok; i++) {
			ok = 0;
			for (uint32_t j = 0; j < b->n && !ok; j++)
				if (!used[j] && v_same(a->v[i], b->v[j]) && (a->k == 'S' || v_same(a->w[i], b->w[j]))) { used[j] = 1; ok = 1; }
		}
		free(used);
		return ok;
	}
	}
	return 0;
}
/* comparison of values: -1 0 1, or 2 where types differ or cannot be compared */
static int v_isnum(V* v) { return v->k == 'b' || v->k == 'i' || v->k == 'f'; }
static int v_cmp(V* a, V* b)
{
	if (v_isvec(a) && v_isvec(b)) {
		for (uint32_t i = 0; i < a->n && i < b->n; i++) {
			int c = v_cmp(a->v[i], b->v[i]);
			if (c) return c;
		}
		return a->n < b->n ? -1 : a->n > b->n;
	}
	if (v_isnum(a) && v_isnum(b)) {
		if (a->k == 'f' && b->k == 'f') return a->f < b->f ? -1 : a->f > b->f;
		/* 64-bit integers and 32-bit floats are exact in long double */
		long double x = a->k == 'f' ? (long double)a->f : (long double)a->i, y = b->k == 'f' ? (long double)b->f : (long double)b->i;
		return x < y ? -1 : x > y;
	}
	if (a->k != b->k) return 2;
	if (a->k == 'n') return 0;
	if (a->k == 's') {
		for (uint32_t i = 0; i < a->n && i < b->n; i++) if (a->s[i] != b->s[i]) return a->s[i] < b->s[i] ? -1 : 1;
		return a->n < b->n ? -1 : a->n > b->n;
	}
	if (a->k == 'B') {
		for (uint32_t i = 0; i < a->n && i < b->n; i++) if (a->bits[i] != b->bits[i]) return a->bits[i] < b->bits[i] ? -1 : 1;
		return a->n < b->n ? -1 : a->n > b->n;
	}
	return 2;
}
/* keys: values of different types are different */
static int v_keyeq(V* a, V* b)
{
	if (v_isvec(a) && v_isvec(b)) {
		if (a->n != b->n) return 0;
		for (uint32_t i = 0; i < a->n; i++) if (!v_keyeq(a->v[i], b->v[i])) return 0;
		return 1;
	}
	return v_cmp(a, b) == 0;
}
static int v_hashable(V* v)
{
	if (v->k == 'S' || v->k == 'M') return 0;
	if (v_isvec(v)) for (uint32_t i = 0; i < v->n; i++) if (!v_hashable(v->v[i])) return 0;
	return 1;
}

/* -- reading --------------------------------------------------------------- */
static V* v_read_(pointless_t* p, pointless_value_t* v, int depth)
{
	V* r;
	uint32_t i, n, st = 0;
	pointless_value_t *k = 0, *w = 0;
	if (depth > 2000) { r = v_new('?'); return r; }
	switch (v->type) {
	case POINTLESS_NULL: return v_new('n');
	case POINTLESS_BOOLEAN: return v_bool(pointless_value_get_bool(v->type, &v->data));
	case POINTLESS_I32: r = v_int(pointless_value_get_i32(v->type, &v->data)); r->wide = 0; return r;
	case POINTLESS_U32: r = v_int(pointless_value_get_u32(v->type, &v->data)); r->wide = 1; return r;
	case POINTLESS_FLOAT: return v_float(pointless_value_get_float(v->type, &v->data));
	case POINTLESS_STRING_: {
		uint8_t* s = pointless_reader_string_value_ascii(p, v);
		r = v_new('s');
		r->n = pointless_reader_string_len(p, v);
		r->s = calloc(r->n + 1, 4);
		for (i = 0; i < r->n; i++) r->s[i] = s[i];
		if (s[r->n] != 0) r->k = '?';
		return r;
	}
	case POINTLESS_UNICODE_: {
		uint32_t* s = pointless_reader_unicode_value_ucs4(p, v);
		r = v_new('s');
		r->wide = 1;
		r->n = pointless_reader_unicode_len(p, v);
		r->s = calloc(r->n + 1, 4);
		memcpy(r->s, s, r->n * 4);
		if (s[r->n] != 0) r->k = '?';
		return r;
	}
	case POINTLESS_VECTOR_EMPTY:
		r = v_new('v');
		if (pointless_reader_vector_n_items(p, v) != 0) r->k = '?';
		return r;
	case POINTLESS_VECTOR_VALUE: case POINTLESS_VECTOR_VALUE_HASHABLE:
		r = v_new('v');
		n = pointless_reader_vector_n_items(p, v);
		for (i = 0; i < n; i++) v_push(r, v_read_(p, &pointless_reader_vector_value(p, v)[i], depth + 1), 0);
		return r;
	case POINTLESS_BITVECTOR: case POINTLESS_BITVECTOR_0: case POINTLESS_BITVECTOR_1: case POINTLESS_BITVECTOR_01: case POINTLESS_BITVECTOR_10: case POINTLESS_BITVECTOR_PACKED:
		r = v_new('B');
		r->n = pointless_reader_bitvector_n_bits(p, v);
		r->bits = calloc(r->n + 1, 1);
		for (i = 0; i < r->n; i++) r->bits[i] = pointless_reader_bitvector_is_set(p, v, i) != 0;
		return r;
	case POINTLESS_SET_VALUE:
		r = v_new('S');
		while (pointless_reader_set_iter(p, v, &k, &st)) v_push(r, v_read_(p, k, depth + 1), 0);
		if (r->n != pointless_reader_set_n_items(p, v)) r->k = '?';
		return r;
	case POINTLESS_MAP_VALUE_VALUE:
		r = v_new('M');
		while (pointless_reader_map_iter(p, v, &k, &w, &st)) v_push(r, v_read_(p, k, depth + 1), v_read_(p, w, depth + 1));
		if (r->n != pointless_reader_map_n_items(p, v)) r->k = '?';
		return r;
	}
	r = v_new('t');
	r->t = v->type;
	n = pointless_reader_vector_n_items(p, v);
	for (i = 0; i < n; i++) {
		V* x;
		switch (v->type) {
		case POINTLESS_VECTOR_I8: x = v_int(pointless_reader_vector_i8(p, v)[i]); break;
		case POINTLESS_VECTOR_U8: x = v_int(pointless_reader_vector_u8(p, v)[i]); break;
		case POINTLESS_VECTOR_I16: x = v_int(pointless_reader_vector_i16(p, v)[i]); break;
		case POINTLESS_VECTOR_U16: x = v_int(pointless_reader_vector_u16(p, v)[i]); break;
		case POINTLESS_VECTOR_I32: x = v_int(pointless_reader_vector_i32(p, v)[i]); break;
		case POINTLESS_VECTOR_U32: x = v_int(pointless_reader_vector_u32(p, v)[i]); break;
		case POINTLESS_VECTOR_I64: x = v_int(pointless_reader_vector_i64(p, v)[i]); break;
		case POINTLESS_VECTOR_U64: x = v_int(pointless_reader_vector_u64(p, v)[i]); break;
		case POINTLESS_VECTOR_FLOAT: x = v_float(pointless_reader_vector_float(p, v)[i]); break;
		default: r->k = '?'; return r;
		}
		v_push(r, x, 0);
	}
	return r;
}
static V* v_read(pointless_t* p, pointless_value_t* v) { return v_read_(p, v, 0); }

/* -- creating -------------------------------------------------------------- */
/* style bits: 1 typed vectors by caller-owned buffer, 2 strings wide, 4 vectors
   transferred, 8 bitvectors not normalised, 16 vector made before its items,
   32 8-bit strings from UCS2/UCS4 sources */
#define VS_OWNER 1
#define VS_WIDE 2
#define VS_TRANSFER 4
#define VS_RAWBITS 8
#define VS_BEFORE 16
#define VS_SRC 32
/* harnesses may replace what surrounds each creation call */
#ifndef V_CALL
#define V_CALL(e) (e)
#endif
static void* v_keep[65536];
static int v_nkeep;
static void v_release(int to) { while (v_nkeep > to) free(v_keep[--v_nkeep]); }

static uint32_t v_create(pointless_create_t* c, V* v, int style)
{
	uint32_t h, i, x, y;
	const char* error = 0;
	switch (v->k) {
	case 'n': return V_CALL(pointless_create_null(c));
	case 'b': return v->i ? V_CALL(pointless_create_boolean_true(c)) : V_CALL(pointless_create_boolean_false(c));
	case 'i': return v->wide ? V_CALL(pointless_create_u32(c, (uint32_t)v->i)) : V_CALL(pointless_create_i32(c, (int32_t)v->i));
	case 'f': return V_CALL(pointless_create_float(c, v->f));
	case 's': {
		uint32_t max = 0;
		for (i = 0; i < v->n; i++) if (v->s[i] > max) max = v->s[i];
		int wide = v->wide || (style & VS_WIDE) || max > 255;
		uint32_t u4[512];
		uint16_t u2[512];
		uint8_t u1[512];
		if (v->n >= 511) mc_die("long string");
		for (i = 0; i <= v->n; i++) { u4[i] = i < v->n ? v->s[i] : 0; u2[i] = u4[i]; u1[i] = u4[i]; }
		if (wide) {
			if (max < 128 && (style & VS_SRC)) return V_CALL(pointless_create_unicode_ascii(c, (char*)u1, &error));
			if (max < 65536 && (style & VS_SRC)) return V_CALL(pointless_create_unicode_ucs2(c, u2));
			return V_CALL(pointless_create_unicode_ucs4(c, u4));
		}
		if (style & VS_SRC) return v->n % 2 ? V_CALL(pointless_create_string_ucs4(c, u4)) : V_CALL(pointless_create_string_ucs2(c, u2));
		return V_CALL(pointless_create_string_ascii(c, u1));
	}
	case 'B': {
		uint8_t* b = calloc(v->n / 8 + 2, 1);
		for (i = 0; i < v->n; i++) if (v->bits[i]) b[i / 8] |= 1 << (i % 8);
		h = (style & VS_RAWBITS) ? V_CALL(pointless_create_bitvector_no_normalize(c, b, v->n)) : V_CALL(pointless_create_bitvector(c, b, v->n));
		free(b);
		return h;
	}
	case 'v':
		if (style & (VS_TRANSFER | VS_BEFORE)) {
			uint32_t* hs = malloc(4 * v->n + 4);
			h = POINTLESS_CREATE_VALUE_FAIL;
			if ((style & VS_BEFORE) && (h = V_CALL(pointless_create_vector_value(c))) == POINTLESS_CREATE_VALUE_FAIL) { free(hs); return h; }
			for (i = 0; i < v->n; i++) if ((hs[i] = v_create(c, v->v[i], style)) == POINTLESS_CREATE_VALUE_FAIL) { free(hs); return POINTLESS_CREATE_VALUE_FAIL; }
			if (!(style & VS_BEFORE) && (h = V_CALL(pointless_create_vector_value(c))) == POINTLESS_CREATE_VALUE_FAIL) { free(hs); return h; }
			if (style & VS_TRANSFER) {
				uint32_t* own = pointless_malloc(4 * v->n + 4);   /* the caller's, never failing */
				if (!own) { free(hs); return POINTLESS_CREATE_VALUE_FAIL; }
				memcpy(own, hs, 4 * v->n);
				if (v->n == 0) { pointless_free(own); free(hs); return h; }
				if (V_CALL(pointless_create_vector_value_transfer(c, h, own, v->n)) == POINTLESS_CREATE_VALUE_FAIL) { pointless_free(own); free(hs); return POINTLESS_CREATE_VALUE_FAIL; }
			} else
				for (i = 0; i < v->n; i++) if (V_CALL(pointless_create_vector_value_append(c, h, hs[i])) == POINTLESS_CREATE_VALUE_FAIL) { free(hs); return POINTLESS_CREATE_VALUE_FAIL; }
			free(hs);
			return h;
		}
		h = V_CALL(pointless_create_vector_value(c));
		if (h == POINTLESS_CREATE_VALUE_FAIL) return h;
		for (i = 0; i < v->n; i++) {
			if ((x = v_create(c, v->v[i], style)) == POINTLESS_CREATE_VALUE_FAIL) return x;
			if (V_CALL(pointless_create_vector_value_append(c, h, x)) == POINTLESS_CREATE_VALUE_FAIL) return POINTLESS_CREATE_VALUE_FAIL;
		}
		return h;
	case 't':
#define VT(T, t, name, get) case T: \
		if (style & VS_OWNER) { t* b = malloc(sizeof(t) * v->n + 1); for (i = 0; i < v->n; i++) b[i] = (t)get; if (v_nkeep >= 65536) mc_die("v_keep"); v_keep[v_nkeep++] = b; return V_CALL(pointless_create_vector_##name##_owner(c, b, v->n)); } \
		h = V_CALL(pointless_create_vector_##name(c)); if (h == POINTLESS_CREATE_VALUE_FAIL) return h; \
		for (i = 0; i < v->n; i++) if (V_CALL(pointless_create_vector_##name##_append(c, h, (t)get)) == POINTLESS_CREATE_VALUE_FAIL) return POINTLESS_CREATE_VALUE_FAIL; \
		return h;
		switch (v->t) {
		VT(POINTLESS_VECTOR_I8, int8_t, i8, v->v[i]->i)
		VT(POINTLESS_VECTOR_U8, uint8_t, u8, v->v[i]->i)
		VT(POINTLESS_VECTOR_I16, int16_t, i16, v->v[i]->i)
		VT(POINTLESS_VECTOR_U16, uint16_t, u16, v->v[i]->i)
		VT(POINTLESS_VECTOR_I32, int32_t, i32, v->v[i]->i)
		VT(POINTLESS_VECTOR_U32, uint32_t, u32, v->v[i]->i)
		VT(POINTLESS_VECTOR_I64, int64_t, i64, v->v[i]->i)
		VT(POINTLESS_VECTOR_U64, uint64_t, u64, v->v[i]->i)
		VT(POINTLESS_VECTOR_FLOAT, float, float, v->v[i]->f)
		}
		mc_die("typed vector");
	case 'S':
		h = V_CALL(pointless_create_set(c));
		if (h == POINTLESS_CREATE_VALUE_FAIL) return h;
		for (i = 0; i < v->n; i++) {
			if ((x = v_create(c, v->v[i], style)) == POINTLESS_CREATE_VALUE_FAIL) return x;
			if (V_CALL(pointless_create_set_add(c, h, x)) == POINTLESS_CREATE_VALUE_FAIL) return POINTLESS_CREATE_VALUE_FAIL;
		}
		return h;
	case 'M':
		h = V_CALL(pointless_create_map(c));
		if (h == POINTLESS_CREATE_VALUE_FAIL) return h;
		for (i = 0; i < v->n; i++) {
			if ((x = v_create(c, v->v[i], style)) == POINTLESS_CREATE_VALUE_FAIL) return x;
			if ((y = v_create(c, v->w[i], style)) == POINTLESS_CREATE_VALUE_FAIL) return y;
			if (V_CALL(pointless_create_map_add(c, h, x, y)) == POINTLESS_CREATE_VALUE_FAIL) return POINTLESS_CREATE_VALUE_FAIL;
		}
		return h;
	}
	mc_die("v_create");
	return 0;
}
/* serialise to a buffer and open it; 0 and *error on failure */
static int v_open(V* v, int style, pointless_t* p, void** buf, const char** error)
{
	pointless_create_t c;
	size_t n = 0;
	int mark = v_nkeep;
	pointless_create_begin_64(&c);
	uint32_t h = v_create(&c, v, style);
	if (h == POINTLESS_CREATE_VALUE_FAIL) { pointless_create_end(&c); *error = "creation call failed"; v_release(mark); return 0; }
	pointless_create_set_root(&c, h);
	if (!pointless_create_output_and_end_b(&c, buf, &n, error)) { v_release(mark); return 0; }
	v_release(mark);
	if (!pointless_open_b(p, *buf, n, error)) { pointless_free(*buf); *buf = 0; return 0; }
	return 1;
}
#endif
