// Model of the out-of-line parts of libstdc++ used by the code under test.
#include <map>
namespace std {
typedef _Rb_tree_node_base N;
static N* incr(N* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static N* decr(N* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
N* _Rb_tree_increment(N* x) throw() { return incr(x); }
const N* _Rb_tree_increment(const N* x) throw() { return incr(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) throw() { return decr(x); }
const N* _Rb_tree_decrement(const N* x) throw() { return decr(const_cast<N*>(x)); }
// An (unbalanced) binary search tree satisfies the same interface contract.
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  h._M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
  auto repl = [&](N* o, N* n) {
    if (h._M_parent == o) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    N* y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else { N* y = h._M_parent; while (y->_M_left) y = y->_M_left; h._M_left = y; y = h._M_parent; while (y->_M_right) y = y->_M_right; h._M_right = y; }
  return z;
}
}  // namespace std

// Lists and hash tables, in case the code comes to use them
#include <list>
#include <unordered_map>
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() {
  auto fixup = [](_List_node_base& n, _List_node_base& other) {
    if (n._M_next == &other) n._M_next = n._M_prev = &n;
    else n._M_next->_M_prev = n._M_prev->_M_next = &n;
  };
  std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
  fixup(x, y); fixup(y, x);
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) throw() {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base* const t = this->_M_prev;
  this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::_M_reverse() throw() {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() throw() { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
// any growth policy satisfies the contract
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  size_t b = 13; while (b < n) b = b * 2 + 1;
  _M_next_resize = b; return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > _M_next_resize || bkt < 2) { size_t want = elt + ins + 1; if (want < bkt * 2) want = bkt * 2; return {true, _M_next_bkt(want)}; }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char*)p)[i];
  return h;
}
}  // namespace std
