#include "common.h"
/* the queue against an array, with elements of two types */
#include <sph-sp/queue.h>
void vf_init(void) { }
typedef struct { int id; sph_queue_node_t node; double after; } element_a_t;
typedef struct { char before[24]; int id; sph_queue_node_t node; } element_b_t;
/* many elements, entering and leaving in bursts */
static void many(void) {
  static const int N[] = {300, 70000}, IN[] = {1, 2, 255, 256, 257, 70000}, OUT[] = {1, 255, 256, 70000};
  int n = N[vf_choose(2, "elements")], in = IN[vf_choose(6, "enqueued at once")], out = OUT[vf_choose(4, "dequeued at once")], entered = 0, left = 0;
  element_b_t* a = vf_mem(n * sizeof *a);
  sph_queue_t q;
  memset(&q, 0x55, sizeof q);
  sph_queue_init(&q);
  while (left < n) {
    for (int i = 0; i < in && entered < n; i++) { sph_queue_enq(&q, &a[entered++].node); VF(q.size == (uint32_t)(entered - left), "size", "size %u instead of %d", q.size, entered - left); }
    for (int i = 0; i < out && left < entered; i++) {
      sph_queue_node_t* node = sph_queue_deq(&q);
      VF(node == &a[left].node, "order", "dequeue does not return the oldest element %d", left);
      left++;
      VF(q.size == (uint32_t)(entered - left), "size", "size %u instead of %d", q.size, entered - left);
    }
    vf_op();
  }
}
void vf_body(void) {
  if (vf_choose(2, "many")) { many(); return; }
  int depth = vf_bound(9, 12), pool = 4, expected[64], size = 0, used[4] = {0};
  element_a_t* a[2]; element_b_t* b[2];
  for (int i = 0; i < 2; i++) { a[i] = vf_mem(sizeof **a); b[i] = vf_mem(sizeof **b); memset(a[i], 0x55, sizeof **a); memset(b[i], 0x55, sizeof **b); a[i]->id = i; b[i]->id = 2 + i; }
  sph_queue_t* q = vf_mem(sizeof *q);
  memset(q, 0xaa, sizeof *q);
  sph_queue_init(q);
  fp_reset();
  for (int step = 0; step < depth; step++) {
    VF(q->size == (uint32_t)size, "size", "size %u instead of %d", q->size, size);
    int first = -1;
    /* elements that are not contained: one of each type */
    int options[4], n = 0;
    if (!used[0]) options[n++] = 0; else if (!used[1]) options[n++] = 1;
    if (!used[2]) options[n++] = 2; else if (!used[3]) options[n++] = 3;
    int c = vf_choose(n + 2 + (size > 0), "operation");
    if (c == 0) break;
    if (c == 1) { vf_note(" init"); sph_queue_init(q); size = 0; memset(used, 0, sizeof used); }
    else if (c < n + 2) {
      int id = options[c - 2];
      vf_note(" enq%d", id);
      sph_queue_enq(q, id < 2 ? &a[id]->node : &b[id - 2]->node);
      expected[size++] = id; used[id] = 1;
    } else {
      sph_queue_node_t* node = sph_queue_deq(q);
      first = expected[0];
      vf_note(" deq");
      VF(node == (first < 2 ? &a[first]->node : &b[first - 2]->node), "order", "dequeue does not return the oldest element %d", first);
      if (first < 2) VF(sph_queue_get(node, element_a_t, node) == a[first], "address", "wrong element address");
      else VF(sph_queue_get(node, element_b_t, node) == b[first - 2], "address", "wrong element address");
      memmove(expected, expected + 1, --size * sizeof *expected);
      used[first] = 0;
      /* a removed element belongs to the caller again */
      node->next = (sph_queue_node_t*)0x5555555555555555;
    }
    vf_op();
    for (int i = 0; i < 2; i++) VF(a[i]->id == i && b[i]->id == 2 + i, "element", "an element has been changed");
    fp_int(first);
  }
  /* the remaining elements */
  while (size) {
    VF(q->size == (uint32_t)size, "size", "size %u instead of %d", q->size, size);
    sph_queue_node_t* node = sph_queue_deq(q);
    VF(node == (expected[0] < 2 ? &a[expected[0]]->node : &b[expected[0] - 2]->node), "order", "dequeue does not return the oldest element %d", expected[0]);
    memmove(expected, expected + 1, --size * sizeof *expected);
    node->next = (sph_queue_node_t*)0x5555555555555555;
  }
  VF(!q->size, "size", "size %u instead of 0", q->size);
  fp_done();
}
