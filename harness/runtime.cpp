// Library code that libstdc++ keeps out of line, provided as IR for the symbolic executor.
#include <string>
#include <map>
#include <new>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <unordered_map>
template class std::basic_string<char>;
extern "C" {
static int vf_errno_cell;
int *__errno_location() noexcept { return &vf_errno_cell; }
}
namespace std {
// red-black tree: standard algorithms on _Rb_tree_node_base
static _Rb_tree_node_base *inc(_Rb_tree_node_base *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base *dec(_Rb_tree_node_base *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { return inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { return dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return dec(const_cast<_Rb_tree_node_base *>(x)); }
// an unbalanced but correctly ordered tree: balance is not observable through the container's interface
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
// hashing
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + (c[i] & 3); return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 13 ? 13 : (n | 1); _M_next_resize = (size_t)b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t w = ne + ni + 1; if (w < nb * 2 + 1) w = nb * 2 + 1; _M_next_resize = w; return pair<bool, size_t>(true, w); } return pair<bool, size_t>(false, 0); }
}
}
// nextafter on the bit patterns
extern "C" float nextafterf(float x, float y) {
  uint32_t a, b; memcpy(&a, &x, 4); memcpy(&b, &y, 4); uint32_t ax = a & 0x7fffffffu, ay = b & 0x7fffffffu;
  if (ax > 0x7f800000u || ay > 0x7f800000u) return x + y;
  if (a == b || (ax | ay) == 0) return y;
  uint32_t r = ax == 0 ? ((b & 0x80000000u) | 1) : ((ax > ay || ((a ^ b) >> 31)) ? a - 1 : a + 1);
  float f; memcpy(&f, &r, 4); return f;
}
extern "C" double nextafter(double x, double y) {
  uint64_t a, b; memcpy(&a, &x, 8); memcpy(&b, &y, 8); uint64_t m = ~0ull >> 1, i = 0x7ffull << 52, ax = a & m, ay = b & m;
  if (ax > i || ay > i) return x + y;
  if (a == b || (ax | ay) == 0) return y;
  uint64_t r = ax == 0 ? ((b & ~m) | 1) : ((ax > ay || ((a ^ b) >> 63)) ? a - 1 : a + 1);
  double f; memcpy(&f, &r, 8); return f;
}

extern "C" double ldexp(double x, int n) {
  while (n > 1023) { x *= 0x1p1023; n -= 1023; } while (n < -1022) { x *= 0x1p-1022; n += 1022; }
  unsigned long b = (unsigned long)(1023 + n) << 52; double p; __builtin_memcpy(&p, &b, 8); return x * p;
}
extern "C" double scalbn(double x, int n) { return ldexp(x, n); }
extern "C" float ldexpf(float x, int n) { return (float)ldexp(x, n); }
