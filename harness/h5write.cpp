// h5write FILE < "name ndims d0 d1 .. values.." lines: writes datasets of doubles
#include <hdf5.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
int main(int, char** argv)
{
    hid_t const f = H5Fcreate(argv[1], H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    if (f < 0) return 1;
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l);
        std::string name, w;
        int nd = 0;
        is >> name >> nd;
        std::vector<hsize_t> d(nd);
        for (auto& x : d) is >> x;
        std::vector<double> v;
        while (is >> w) v.push_back(std::strtod(w.c_str(), nullptr));
        hid_t const s = H5Screate_simple(nd, d.data(), nullptr);
        hid_t const t = H5Dcreate2(f, name.c_str(), H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        if (t < 0 || H5Dwrite(t, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) < 0) return 1;
        H5Dclose(t);
        H5Sclose(s);
    }
    return H5Fclose(f) < 0;
}
