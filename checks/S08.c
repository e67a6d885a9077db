#include <setjmp.h>
#include "seq.h"
extern FILE* open_memstream(char**, size_t*);
/* validation of event lists with all single and double wrong links. exit() returns to the check */
extern jmp_buf vf_exit_jump;
extern int vf_exit_trap, vf_exit_code;
void vf_init(void) { sp_initialize(0, 1, 8); }
static sp_event_list_t* elements[300];
static int n;
/* a list is consistent if every element that is reached from the first has the element before as previous, and the list ends */
static int consistent(void) {
  sp_event_list_t* before = 0;
  for (sp_event_list_t* a = n ? elements[0] : 0; a; before = a, a = a->next) if (a->previous != before) return 0;
  return 1;
}
static sp_event_list_t* element(int i) { return i < n ? elements[i] : 0; }
static void link_wrong(const char* label) {
  int i = n > 5 ? choose_index(n, label) : vf_choose(n, label), back = vf_choose(2, "direction"), to = n > 5 ? choose_index(n + 1, "to") : vf_choose(n + 1, "to");
  if (back) elements[i]->previous = element(to); else elements[i]->next = element(to);
  vf_note(" %s of %d is %d", back ? "previous" : "next", i, to);
}
void vf_body(void) {
  int wrong = vf_choose(4, "wrong links");
  n = vf_choose(2, "many") ? (int[]){17, 257}[vf_choose(2, "elements")] : vf_range(wrong ? 1 : 0, vf_bound(5, 5), "elements");
  if (wrong == 3 && n > vf_bound(4, 5)) vf_skip();
  vf_note("%d elements", n);
  for (int i = 0; i < n; i++) { elements[i] = vf_mem(sizeof *elements[i]); memset(elements[i], 0, sizeof *elements[i]); }
  for (int i = 0; i < n; i++) {
    elements[i]->event.start = i; elements[i]->event.end = i + 1;
    elements[i]->previous = i ? elements[i - 1] : 0; elements[i]->next = i + 1 < n ? elements[i + 1] : 0;
  }
  for (int i = 0; i < wrong; i++) link_wrong("element");
  int ok = consistent(), ended = 0;
  char* text = 0;
  size_t size = 0;
  fflush(stdout);
  FILE* standard = stdout;
  stdout = open_memstream(&text, &size);
  vf_exit_code = -1;
  vf_exit_trap = 1;
  if (!setjmp(vf_exit_jump)) { sp_event_list_validate(n ? elements[0] : 0); } else ended = 1;
  vf_exit_trap = 0;
  fclose(stdout); stdout = standard;
  vf_op();
  VF(ended == !ok, ok ? "refused" : "accepted", "a%s list is %s", ok ? " consistent" : "n inconsistent", ended ? "refused" : "accepted");
  VF(ok || vf_exit_code == 1, "exit_code", "ends with exit code %d", vf_exit_code);
  VF(ok ? !size : size && text[size - 1] == '\n', "message", "message \"%.100s\"", text);
  fp_reset(); fp_int(n); fp_int(ok);
  for (int i = 0; i < n; i++) for (int k = 0; k <= n && n < 6; k++) fp_int((elements[i]->next == element(k)) + 2 * (elements[i]->previous == element(k)));
  free(text);
  fp_done();
}
