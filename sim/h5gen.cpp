// Writes small HDF5 tables in the layout of a pandas series with a multi-index.
// Input: records "file D n0 v.. n1 v.. m v.." on standard input.
#include <hdf5.h>
#include <iostream>
#include <string>
#include <vector>

static void vec(hid_t g, const char* name, const std::vector<double>& v, bool col) {
  hsize_t d[2] = {v.size(), 1};
  hid_t s = H5Screate_simple(col ? 2 : 1, d, nullptr);
  hid_t ds = H5Dcreate2(g, name, H5T_IEEE_F64LE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
  H5Dclose(ds); H5Sclose(s);
}

int main() {
  std::string f;
  int d;
  while (std::cin >> f >> d) {
    hid_t file = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    if (file < 0) return 1;
    hid_t g = H5Gcreate2(file, "/pandas", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    hid_t s = H5Screate(H5S_SCALAR);
    unsigned long long n = d;
    hid_t a = H5Acreate2(g, "axis1_nlevels", H5T_STD_I64LE, s, H5P_DEFAULT, H5P_DEFAULT);
    long long sn = (long long)n;
    H5Awrite(a, H5T_NATIVE_LLONG, &sn);
    H5Aclose(a); H5Sclose(s);
    for (int i = 0; i <= d; i++) {
      size_t m;
      std::cin >> m;
      std::vector<double> v(m);
      for (auto& x : v) std::cin >> x;
      if (i < d) vec(g, ("axis1_level" + std::to_string(i)).c_str(), v, false);
      else vec(g, "block0_values", v, true);
    }
    H5Gclose(g);
    if (H5Fclose(file) < 0) return 1;
  }
  return 0;
}
