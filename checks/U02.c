#include "common.h"
void vf_init(void) {}
void vf_body(void) {
  static char* const groups[] = {"sp", "sph", "libc", "", "other", "s", "spp"};
  int g = vf_choose(LEN(groups), "group"), id = vf_choose(40, "id") - 5;
  char* group = vf_mem(8); strcpy(group, groups[g]); /* compared by content */
  status_t s = {id, (uint8_t*)group};
  const char* d = "", *n = "unknown";
  if (g == 0) switch (id) {
    case 6: d = "end of file"; n = "end-of-file"; break;
    case 7: d = "input argument is of wrong type"; n = "input-type"; break;
    case 10: d = "not implemented"; n = "not-implemented"; break;
    case 8: d = "memory allocation error"; n = "memory"; break;
    case 2: d = "invalid file write"; n = "invalid-file-write"; break;
    case 3: d = "invalid file read"; n = "invalid-file-read"; break;
    case 4: d = "unsupported format (only 32 bit float supported)"; n = "not-implemented"; break;
    case 5: d = "end of file"; n = "end-of-file"; break;
    case 9: d = "invalid argument"; n = "invalid-argument"; break;
  }
  if (g == 1 && id == 1) { d = "not enough memory or other memory allocation error"; n = "memory"; }
  vf_note("%s %d", groups[g], id);
  VF(!strcmp((char*)sp_status_description(s), d), "description", "description of %s %d is '%s'", groups[g], id, sp_status_description(s));
  VF(!strcmp((char*)sp_status_name(s), n), "name", "name of %s %d is '%s'", groups[g], id, sp_status_name(s));
  fp_reset(); fp_add(d, strlen(d)); fp_add(n, strlen(n)); fp_done();
}
