// h5dump OUT FILE...: every dataset of each HDF5 file in the trace format
// (one record per file), read with the HDF5 library and nothing else.
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *o;
static herr_t visit(hid_t g, const char *name, const H5L_info_t *info, void *d) {
  (void) info; (void) d;
  H5O_info_t oi;
  if (H5Oget_info_by_name(g, name, &oi, H5P_DEFAULT) < 0) return 0;
  if (oi.type != H5O_TYPE_DATASET) return 0;
  hid_t ds = H5Dopen(g, name, H5P_DEFAULT), sp = H5Dget_space(ds), ty = H5Dget_type(ds);
  hssize_t n = H5Sget_simple_extent_npoints(sp);
  size_t sz = H5Tget_size(ty);
  char c; hid_t mt;
  if (H5Tget_class(ty) == H5T_FLOAT) { c = sz == 4 ? 'f' : 'd'; mt = sz == 4 ? H5T_NATIVE_FLOAT : H5T_NATIVE_DOUBLE; sz = sz == 4 ? 4 : 8; }
  else if (sz == 1) { c = 'c'; mt = H5T_NATIVE_SCHAR; }
  else { c = 'i'; mt = H5T_NATIVE_INT; sz = 4; }
  void *b = calloc(n + 1, sz);
  int ok = H5Dread(ds, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) >= 0;
  if (ok) { fprintf(o, "A %s %c %ld\n", name, c, (long) n); fwrite(b, sz, n, o); fputc('\n', o); }
  else fprintf(o, "S unreadable:%s 1\n", name);
  free(b); H5Tclose(ty); H5Sclose(sp); H5Dclose(ds);
  return 0;
}
int main(int argc, char **argv) {
  H5Eset_auto(H5E_DEFAULT, NULL, NULL);
  o = fopen(argv[1], "wb");
  for (int i = 2; i < argc; i++) {
    fprintf(o, "R %s %d\n", argv[i], i - 2);
    hid_t f = H5Fopen(argv[i], H5F_ACC_RDONLY, H5P_DEFAULT);
    fprintf(o, "S opened %d\n", f >= 0);
    if (f >= 0) { H5Lvisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, visit, NULL); H5Fclose(f); }
    fprintf(o, "E\n");
  }
  fprintf(o, "END\n");
  fclose(o);
  return 0;
}
