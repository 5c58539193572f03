/* linked into every harness, symbolic and native */
#include "vf.h"
struct vf_isoblk vf_isotab[VF_MAXISO]; int vf_ison = 0;
char *vf_iso_alloc(void *alloc, uint32_t size) {
  char *p = (char *)malloc(size);
  if (vf_ison < VF_MAXISO) { vf_isotab[vf_ison].owner = alloc; vf_isotab[vf_ison].p = p; vf_ison++; }
  return p;
}
void vf_iso_release(void *alloc) {
  int i;
  for (i = 0; i < vf_ison; i++) if (vf_isotab[i].owner == alloc && vf_isotab[i].p) { free(vf_isotab[i].p); vf_isotab[i].p = 0; vf_isotab[i].owner = 0; }
}
