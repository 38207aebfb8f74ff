// Makes the library's std::string code available as bitcode, and supplies plain versions of the few
// out-of-line functions behind std::list, std::map/std::set and std::unordered_map.  IR build only.
#include <string>
#include <list>
#include <map>
#include <unordered_map>
template class std::basic_string<char>;
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
// load factor 1, bucket counts are odd numbers (any count will do)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n | 1; _M_next_resize = b; return b < 3 ? 3 : b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t want = ne + ni < 11 ? 11 : ne + ni; if (want >= nb) return pair<bool, size_t>(true, _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2)); _M_next_resize = nb; } return pair<bool, size_t>(false, 0); }
}
// a binary search tree without rebalancing: all nodes black, the header stays red
typedef _Rb_tree_node_base Nd;
static Nd* inc_(Nd* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } Nd* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
static Nd* dec_(Nd* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { Nd* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } Nd* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
Nd* _Rb_tree_increment(Nd* x) throw() { return inc_(x); }
const Nd* _Rb_tree_increment(const Nd* x) throw() { return inc_(const_cast<Nd*>(x)); }
Nd* _Rb_tree_decrement(Nd* x) throw() { return dec_(x); }
const Nd* _Rb_tree_decrement(const Nd* x) throw() { return dec_(const_cast<Nd*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, Nd* x, Nd* p, Nd& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
Nd* _Rb_tree_rebalance_for_erase(Nd* const z, Nd& h) throw() {
  Nd *lm = z == h._M_left ? inc_(z) : h._M_left, *rm = z == h._M_right ? (h._M_left == z ? &h : dec_(z)) : h._M_right;
  Nd* r;
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else { r = z->_M_right; while (r->_M_left) r = r->_M_left;
    if (r->_M_parent != z) { r->_M_parent->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = r->_M_parent; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; }
    r->_M_left = z->_M_left; z->_M_left->_M_parent = r; }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; } else { h._M_left = lm; h._M_right = rm; }
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* q = (const unsigned char*)p; size_t h = seed; while (n--) h = (h ^ *q++) * 1099511628211ull; return h; }
}
