// h5json file...: prints each HDF5 file as one JSON line: datasets (shape, data as exact text) and string attributes.
#include <hdf5.h>
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>
#include "json_out.hpp"
static std::string out;
static bool first;
static herr_t visit(hid_t g, char const* name, H5L_info_t const*, void*)
{
    hid_t const d = H5Dopen2(g, name, H5P_DEFAULT);
    if (d < 0) return 0;
    hid_t const s = H5Dget_space(d);
    int const nd = H5Sget_simple_extent_ndims(s);
    std::vector<hsize_t> dims(nd > 0 ? nd : 0);
    if (nd > 0) H5Sget_simple_extent_dims(s, dims.data(), nullptr);
    std::size_t n = 1;
    for (auto x : dims) n *= x;
    hid_t const ty = H5Dget_type(d);
    H5T_class_t const c = H5Tget_class(ty);
    if (!first) out += ",";
    first = false;
    out += jo::str(name) + ":{\"shape\":" + jo::list(dims.size(), [&](std::size_t i) { return std::to_string(dims[i]); });
    out += std::string(",\"type\":\"") + (c == H5T_FLOAT ? "float" : c == H5T_INTEGER ? "int" : "other") + "\",\"size\":" + std::to_string(H5Tget_size(ty)) + ",\"data\":";
    if (c == H5T_FLOAT) {
        std::vector<double> v(n);
        H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
        out += jo::list(n, [&](std::size_t i) { return jo::num(v[i]); });
    } else if (c == H5T_INTEGER) {
        std::vector<long long> v(n);
        H5Dread(d, H5T_NATIVE_LLONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
        out += jo::list(n, [&](std::size_t i) { return std::to_string(v[i]); });
    } else out += "[]";
    out += "}";
    H5Tclose(ty); H5Sclose(s); H5Dclose(d);
    return 0;
}
static herr_t attr(hid_t o, char const* name, H5A_info_t const*, void*)
{
    hid_t const a = H5Aopen(o, name, H5P_DEFAULT);
    hid_t const ty = H5Aget_type(a);
    std::string v;
    if (H5Tget_class(ty) == H5T_STRING && !H5Tis_variable_str(ty)) {
        v.resize(H5Tget_size(ty));
        H5Aread(a, ty, v.data());
    }
    if (!first) out += ",";
    first = false;
    out += jo::str(name) + ":" + jo::str(v);
    H5Tclose(ty); H5Aclose(a);
    return 0;
}
int main(int argc, char** argv)
{
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    for (int i = 1; i < argc; ++i) {
        hid_t const f = H5Fopen(argv[i], H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0) { std::printf("{\"file\":%s,\"error\":true}\n", jo::str(argv[i]).c_str()); continue; }
        out = "{\"file\":" + jo::str(argv[i]) + ",\"datasets\":{";
        first = true;
        H5Literate(f, H5_INDEX_NAME, H5_ITER_INC, nullptr, visit, nullptr);
        out += "},\"attributes\":{";
        first = true;
        H5Aiterate2(f, H5_INDEX_NAME, H5_ITER_INC, nullptr, attr, nullptr);
        out += "}}";
        std::puts(out.c_str());
        H5Fclose(f);
    }
}
