// K06: laws of the cache and the stack, stated through their public operations only.
#include "tinyfk.hpp"
#include "vf.h"
using tinyfk::SizedCache; using tinyfk::SizedStack; using urdf::Pose;
typedef SizedCache<Pose> Cache; typedef SizedStack<tinyfk::LinkIdAndTransform> Stack;
struct Get { bool has; Pose v; };
static Get get(const Cache& c, size_t i) { const Pose* p = c.get_cache(i); Get g; g.has = (p != nullptr); if (p) g.v = *p; else g.v.clear(); return g; }

Get L_cache_hit(Cache c, size_t i, const Pose& p) { c.set_cache(i, p); return get(c, i); }
Get R_cache_hit(Cache c, size_t i, const Pose& p) { Get g; g.has = true; g.v = p; return g; }
Get L_cache_other(Cache c, size_t i, size_t j, const Pose& p) { vf::assume(i != j); c.set_cache(i, p); return get(c, j); }
Get R_cache_other(Cache c, size_t i, size_t j, const Pose& p) { return get(c, j); }
Get L_cache_fresh(size_t n, size_t i) { vf::assume(i < n); Cache c(n); return get(c, i); }
Get R_cache_fresh(size_t n, size_t i) { Get g; g.has = false; g.v.clear(); return g; }
Get L_cache_default_extended(size_t i) { vf::assume(i < 2); Cache c; c.extend(); c.extend(); return get(c, i); }
Get R_cache_default_extended(size_t i) { Get g; g.has = false; g.v.clear(); return g; }
Get L_cache_clear(size_t n, size_t i, size_t j, size_t k, const Pose& p, const Pose& q) {
  vf::assume(i < n && j < n && k < n); Cache c(n); c.set_cache(i, p); c.set_cache(j, q); c.clear(); return get(c, k); }
Get R_cache_clear(size_t n, size_t i, size_t j, size_t k, const Pose& p, const Pose& q) { Get g; g.has = false; g.v.clear(); return g; }
Get L_cache_after_clear(size_t n, size_t i, size_t j, size_t k, const Pose& p, const Pose& q) {
  vf::assume(i < n && j < n && k < n); Cache c(n); c.set_cache(i, p); c.clear(); c.set_cache(j, q); return get(c, k); }
Get R_cache_after_clear(size_t n, size_t i, size_t j, size_t k, const Pose& p, const Pose& q) {
  Get g; g.has = (j == k); if (j == k) g.v = q; else g.v.clear(); return g; }
Get L_cache_extend(size_t n, size_t i, size_t k, const Pose& p) {
  vf::assume(i < n && k <= n); Cache c(n); c.set_cache(i, p); c.extend(); return get(c, k); }
Get R_cache_extend(size_t n, size_t i, size_t k, const Pose& p) { Get g; g.has = false; g.v.clear(); return g; }
Get L_cache_extend_set(size_t n, size_t k, const Pose& p) {
  vf::assume(k <= n); Cache c(n); c.extend(); c.set_cache(n, p); return get(c, k); }
Get R_cache_extend_set(size_t n, size_t k, const Pose& p) { Get g; g.has = (k == n); if (k == n) g.v = p; else g.v.clear(); return g; }
Get L_cache_extend_clear(size_t n, size_t k, size_t i, const Pose& p) {
  vf::assume(k <= n + 1); vf::assume(i <= n + 1); Cache c(n); c.extend(); c.extend(); c.set_cache(i, p); c.clear(); return get(c, k); }
Get R_cache_extend_clear(size_t n, size_t k, size_t i, const Pose& p) { Get g; g.has = false; g.v.clear(); return g; }
Get L_cache_overwrite(size_t n, size_t i, const Pose& p, const Pose& q) { vf::assume(i < n); Cache c(n); c.set_cache(i, p); c.set_cache(i, q); return get(c, i); }
Get R_cache_overwrite(size_t n, size_t i, const Pose& p, const Pose& q) { Get g; g.has = true; g.v = q; return g; }
Get L_cache_two(size_t n, size_t i, size_t j, size_t k, const Pose& p, const Pose& q) {
  vf::assume(i < n && j < n && k < n); Cache c(n); c.set_cache(i, p); c.set_cache(j, q); return get(c, k); }
Get R_cache_two(size_t n, size_t i, size_t j, size_t k, const Pose& p, const Pose& q) {
  Get g; g.has = (k == j || k == i); if (k == j) g.v = q; else if (k == i) g.v = p; else g.v.clear(); return g; }

// stack; the bounds on the number of elements are the capacity the constructor was given
size_t L_stack_new(size_t n) { Stack s(n); return s.size() + (s.empty() ? 0 : 1000); }
size_t R_stack_new(size_t n) { return 0; }
tinyfk::LinkIdAndTransform L_stack_top(Stack s, const tinyfk::LinkIdAndTransform& e) { s.push(e); return s.top(); }
tinyfk::LinkIdAndTransform R_stack_top(Stack s, const tinyfk::LinkIdAndTransform& e) { return e; }
size_t L_stack_size(Stack s, const tinyfk::LinkIdAndTransform& e) { s.push(e); return s.size(); }
size_t R_stack_size(Stack s, const tinyfk::LinkIdAndTransform& e) { return s.size() + 1; }
bool L_stack_nonempty(Stack s, const tinyfk::LinkIdAndTransform& e) { vf::assume(s.size() < 1000000); s.push(e); return s.empty(); }
bool R_stack_nonempty(Stack s, const tinyfk::LinkIdAndTransform& e) { return false; }
size_t L_stack_pop_size(Stack s, const tinyfk::LinkIdAndTransform& e) { s.push(e); s.pop(); return s.size(); }
size_t R_stack_pop_size(Stack s, const tinyfk::LinkIdAndTransform& e) { return s.size(); }
tinyfk::LinkIdAndTransform L_stack_lifo(Stack s, const tinyfk::LinkIdAndTransform& e, const tinyfk::LinkIdAndTransform& f) { s.push(e); s.push(f); s.pop(); return s.top(); }
tinyfk::LinkIdAndTransform R_stack_lifo(Stack s, const tinyfk::LinkIdAndTransform& e, const tinyfk::LinkIdAndTransform& f) { return e; }
tinyfk::LinkIdAndTransform L_stack_under(Stack s, const tinyfk::LinkIdAndTransform& e) { vf::assume(s.size() > 0); s.push(e); s.pop(); return s.top(); }
tinyfk::LinkIdAndTransform R_stack_under(Stack s, const tinyfk::LinkIdAndTransform& e) { vf::assume(s.size() > 0); return s.top(); }
tinyfk::LinkIdAndTransform L_stack_replace(Stack s, const tinyfk::LinkIdAndTransform& e, const tinyfk::LinkIdAndTransform& f) { s.push(e); s.pop(); s.push(f); return s.top(); }
tinyfk::LinkIdAndTransform R_stack_replace(Stack s, const tinyfk::LinkIdAndTransform& e, const tinyfk::LinkIdAndTransform& f) { return f; }
size_t L_stack_reset(Stack s, const tinyfk::LinkIdAndTransform& e) { s.push(e); s.reset(); return s.size() + (s.empty() ? 0 : 1000); }
size_t R_stack_reset(Stack s, const tinyfk::LinkIdAndTransform& e) { return 0; }
tinyfk::LinkIdAndTransform L_stack_reset_push(Stack s, const tinyfk::LinkIdAndTransform& e) { s.reset(); s.push(e); return s.top(); }
tinyfk::LinkIdAndTransform R_stack_reset_push(Stack s, const tinyfk::LinkIdAndTransform& e) { return e; }
tinyfk::LinkIdAndTransform L_stack_write_top(Stack s, const tinyfk::LinkIdAndTransform& e, const tinyfk::LinkIdAndTransform& f) { s.push(e); s.top() = f; return s.top(); }
tinyfk::LinkIdAndTransform R_stack_write_top(Stack s, const tinyfk::LinkIdAndTransform& e, const tinyfk::LinkIdAndTransform& f) { return f; }
