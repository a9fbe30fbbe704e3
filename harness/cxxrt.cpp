// bodies of libstdc++ functions that live in the shared library, for the symbolic executor
#include <string>
#include <map>
#include <list>
#include <unordered_map>
template class std::basic_string<char>;

namespace std {
typedef _Rb_tree_node_base Node;
static Node *next_node(Node *x)
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  Node *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static Node *prev_node(Node *x)
{
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // the header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  Node *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
Node *_Rb_tree_increment(Node *x) throw() { return next_node(x); }
const Node *_Rb_tree_increment(const Node *x) throw() { return next_node(const_cast<Node *>(x)); }
Node *_Rb_tree_decrement(Node *x) throw() { return prev_node(x); }
const Node *_Rb_tree_decrement(const Node *x) throw() { return prev_node(const_cast<Node *>(x)); }
// an ordered binary tree without the rebalancing (order is all that can be observed)
void _Rb_tree_insert_and_rebalance(const bool left, Node *x, Node *p, Node &h) throw()
{
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
Node *_Rb_tree_rebalance_for_erase(Node *const z, Node &h) throw()
{
  Node *c;
  Node **link = h._M_parent == z ? &h._M_parent : z->_M_parent->_M_left == z ? &z->_M_parent->_M_left : &z->_M_parent->_M_right;
  Node *prev = h._M_left == z ? 0 : prev_node(z), *next = h._M_right == z ? 0 : next_node(z);
  if (!z->_M_left) c = z->_M_right;
  else if (!z->_M_right) c = z->_M_left;
  else { // the left subtree goes below the successor
    c = z->_M_right; next->_M_left = z->_M_left; z->_M_left->_M_parent = next;
  }
  *link = c; if (c) c->_M_parent = z->_M_parent;
  if (h._M_left == z) h._M_left = next ? next : &h;
  if (h._M_right == z) h._M_right = prev ? prev : &h;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = 13; while (k < n) k = 2 * k + 1; _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
  if (elt + ins <= _M_next_resize) return pair<bool, size_t>(false, 0);
  return pair<bool, size_t>(true, _M_next_bkt(elt + ins > 2 * bkt ? elt + ins : 2 * bkt));
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *) p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
}
