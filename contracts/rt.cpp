// Runtime models for the verifier: plain C++ bodies for library functions that libstdc++/libc only
// provide as machine code. They are ordinary implementations (no assumptions beyond their usual
// specification) and belong to the trusted base.
#include <cstdint>
#include <cstddef>
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { auto p = (const unsigned char*) a; auto q = (const unsigned char*) b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* rt_memchr(const void* a, int c, size_t n) asm("memchr");
void* rt_memchr(const void* a, int c, size_t n) { auto p = (const unsigned char*) a; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char) c) return (void*)(p + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int) (unsigned char) *a - (int) (unsigned char) *b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int) (unsigned char) *a - (int) (unsigned char) *b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int iswupper(unsigned c) { return c >= 65 && c <= 90; }
int iswlower(unsigned c) { return c >= 97 && c <= 122; }
int iswalpha(unsigned c) { return iswupper(c) || iswlower(c); }
int iswdigit(unsigned c) { return c >= 48 && c <= 57; }
int iswalnum(unsigned c) { return iswalpha(c) || iswdigit(c); }
int iswspace(unsigned c) { return c == 32 || (c >= 9 && c <= 13); }
unsigned towlower(unsigned c) { return iswupper(c) ? c + 32 : c; }
unsigned towupper(unsigned c) { return iswlower(c) ? c - 32 : c; }
int isupper(int c) { return c >= 65 && c <= 90; }
int islower(int c) { return c >= 97 && c <= 122; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
char* rt_strstr(const char* h, const char* n) asm("strstr");
char* rt_strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*) h; if (!*h) return nullptr; } }
char* rt_strchr(const char* s, int c) asm("strchr");
char* rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char) c) return (char*) s; if (!*s) return nullptr; } }
char* rt_strrchr(const char* s, int c) asm("strrchr");
char* rt_strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char) c) r = (char*) s; if (!*s) return r; } }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { char* r = d; while (*d) d++; while ((*d++ = *s++)) ; return r; }
size_t strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char) *a) == tolower((unsigned char) *b)) { a++; b++; } return tolower((unsigned char) *a) - tolower((unsigned char) *b); }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
}
// ---- std::unordered_map support
namespace std {
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) { auto p = (const unsigned char*) ptr; size_t h = 1469598103934665603ull ^ seed; for (size_t i = 0; i < len; i++) { h ^= p[i]; h *= 1099511628211ull; } return h; }
namespace __detail {
struct _Prime_rehash_policy { float _M_max_load_factor; mutable size_t _M_next_resize; size_t _M_next_bkt(size_t n) const; size_t _M_bkt_for_elements(size_t n) const { return n; } };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = p * 2 + 3; _M_next_resize = p; return p; }
}
}
struct rt_pair { bool first; size_t second; };
extern "C" rt_pair rt_need_rehash(const std::__detail::_Prime_rehash_policy* p, size_t nbkt, size_t nelt, size_t nins) asm("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
extern "C" rt_pair rt_need_rehash(const std::__detail::_Prime_rehash_policy* p, size_t nbkt, size_t nelt, size_t nins)
{
	if (nelt + nins <= 4 && nbkt == 1) return { false, 0 };	// any number of buckets is legal; few buckets avoid splitting on symbolic keys
	if (nelt + nins > nbkt || nbkt == 1) { size_t want = nelt + nins; if (want < nbkt * 2) want = nbkt * 2; return { true, p->_M_next_bkt(want) }; }
	p->_M_next_resize = nbkt; return { false, 0 };
}
// ---- std::map support (an unbalanced search tree satisfies the same ordering specification)
namespace std {
enum _Rb_tree_color { _S_red = false, _S_black = true };
struct _Rb_tree_node_base { _Rb_tree_color c; _Rb_tree_node_base *parent, *left, *right; };
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x)
{
	if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
	auto y = x->parent; while (x == y->right) { x = y; y = y->parent; } if (x->right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x)
{
	if (x->c == _S_red && x->parent->parent == x) return x->right;
	if (x->left) { auto y = x->left; while (y->right) y = y->right; return y; }
	auto y = x->parent; while (x == y->left) { x = y; y = y->parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool insert_left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
{
	x->parent = p; x->left = nullptr; x->right = nullptr; x->c = _S_black;
	if (insert_left) { p->left = x; if (p == &header) { header.parent = x; header.right = x; } else if (p == header.left) header.left = x; }
	else { p->right = x; if (p == header.right) header.right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
{
	_Rb_tree_node_base*& root = header.parent; auto*& lm = header.left; auto*& rm = header.right;
	auto y = z; _Rb_tree_node_base* x = nullptr;
	if (!y->left) x = y->right; else if (!y->right) x = y->left; else { y = y->right; while (y->left) y = y->left; x = y->right; }
	if (y != z) {
		z->left->parent = y; y->left = z->left;
		if (y != z->right) { if (x) x->parent = y->parent; y->parent->left = x; y->right = z->right; z->right->parent = y; }
		if (root == z) root = y; else if (z->parent->left == z) z->parent->left = y; else z->parent->right = y;
		y->parent = z->parent;
	} else {
		if (x) x->parent = y->parent;
		if (root == z) root = x; else if (z->parent->left == z) z->parent->left = x; else z->parent->right = x;
		if (lm == z) { if (!z->right) lm = z->parent; else { auto m = x; while (m->left) m = m->left; lm = m; } }
		if (rm == z) { if (!z->left) rm = z->parent; else { auto m = x; while (m->right) m = m->right; rm = m; } }
	}
	return z;
}
// ---- std::list support
namespace __detail {
struct _List_node_base { _List_node_base *n, *p; void _M_hook(_List_node_base* const pos) noexcept; void _M_unhook() noexcept; void _M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept; };
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept { n = pos; p = pos->p; pos->p->n = this; pos->p = this; }
void _List_node_base::_M_unhook() noexcept { auto nn = n, pp = p; pp->n = nn; nn->p = pp; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->p->n = this; f->p->n = l; this->p->n = f; auto t = this->p; this->p = l->p; l->p = f->p; f->p = t; } }
}
}
extern "C" { int __tfm_symhex = 0; }
