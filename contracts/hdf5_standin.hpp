// The part of the HDF5 C library that core_hdf5.hpp uses, as a store in memory: files,
// groups with named members in order of name, datasets with a type, a space and bytes,
// selections, and handles that are refused once closed.  It is the assumed contract
// of that library; natively the library itself is used (in a scratch directory).
#pragma once
#include "vc.hpp"
#include <hdf5.h>
#include <cstdlib>
#include <cstdio>
#include <string>
#ifdef VC_NATIVE
#include <unistd.h>
#include <filesystem>
namespace spec {
struct scratch
{
    char dir[40] = "/tmp/vc_h5_XXXXXX";
    scratch() { if (! mkdtemp(dir)) std::abort(); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr); }
    ~scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
    std::string file(const char* f) const { return dir + std::string("/") + f; }
    std::string path() const { return dir; }
};
}
#else
namespace spec {
struct scratch { std::string file(const char* f) const { return std::string("d/") + f; } std::string path() const { return "d"; } };
}
namespace vc_h5 {
enum { handles = 20000, types = 4000, spaces = 4000, objects = 400, members = 40 };
enum kind_t { nothing, file_k, group_k, dataset_k, type_k, space_k, plist_k };
struct handle_t { int kind, what; };
struct member_t { char name[40]; long offset; int type; };
struct type_t { int cls; long size; int base; long count; int n; member_t m[16]; };     // cls: 1 int 2 double 3 ulong 4 text 5 array 6 compound
struct space_t { int cls; int rank; hsize_t dims[4], top[4]; int selection; hsize_t start[4], stride[4], count[4], block[4]; }; // cls: 0 null 1 scalar 2 simple; selection: 0 none 1 all 2 hyperslab
struct object_t { int kind; int n; char* name[members]; int member[members]; int type; int space; int chunked; hsize_t chunk[4]; char* data; };
struct file_t { char name[80]; int root; int opened; int rdonly; };
inline handle_t H[handles]; inline int nh = 0;
inline type_t T[types]; inline int nt = 0;
inline space_t S[spaces]; inline int ns = 0;
inline object_t O[objects]; inline int no = 0;
inline file_t F[8]; inline int nf = 0;
constexpr hid_t first = 1000;
inline bool same(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return *a == *b; }
inline bool before(const char* a, const char* b) { while (*a && *a == *b) { ++a; ++b; } return (unsigned char) *a < (unsigned char) *b; }
inline void copy(char* to, const char* from, int n) { int i = 0; while (from[i] && i + 1 < n) { to[i] = from[i]; ++i; } vc_assert("name fits", ! from[i]); to[i] = 0; }
inline hid_t give(int kind, int what) { vc_assert("room for handles", nh < handles); H[nh] = {kind, what}; return first + nh++; }
inline int get(hid_t id, int kind)
{
    long k = long(id) - first;
    if (k < 0 || k >= nh || H[k].kind != kind) return -1;
    return H[k].what;
}
inline herr_t drop(hid_t id, int kind) { if (get(id, kind) < 0) return -1; H[long(id) - first].kind = nothing; return 0; }
inline int new_type() { vc_assert("room for types", nt < types); return nt++; }
inline int simple_type(int cls, long size) { int t = new_type(); T[t] = type_t(); T[t].cls = cls; T[t].size = size; return t; }
inline bool equal(int a, int b)
{
    if (T[a].cls != T[b].cls || T[a].size != T[b].size || T[a].count != T[b].count || T[a].n != T[b].n) return false;
    if (T[a].cls == 5) return equal(T[a].base, T[b].base);
    for (int i = 0; i < T[a].n; ++i)        // members in any order
    {
        bool found = false;
        for (int j = 0; j < T[b].n; ++j) if (same(T[a].m[i].name, T[b].m[j].name)) found = T[a].m[i].offset == T[b].m[j].offset && equal(T[a].m[i].type, T[b].m[j].type);
        if (! found) return false;
    }
    return true;
}
inline int new_space() { vc_assert("room for spaces", ns < spaces); S[ns] = space_t(); S[ns].selection = 1; return ns++; }
inline int copy_space(int s) { int k = new_space(); S[k] = S[s]; return k; }
inline hsize_t points(const space_t& s) { if (s.cls == 0) return 0; hsize_t n = 1; for (int i = 0; i < s.rank; ++i) n *= s.dims[i]; return n; }
inline hsize_t selected(const space_t& s)
{
    if (s.selection == 0) return 0;
    if (s.selection == 1) return points(s);
    hsize_t n = 1;
    for (int i = 0; i < s.rank; ++i) n *= s.count[i] * s.block[i];
    return n;
}
// position in the data of the k-th selected point, in row-major order
inline hsize_t position(const space_t& s, hsize_t k)
{
    if (s.selection == 1) return k;
    hsize_t at[4];
    for (int i = s.rank - 1; i >= 0; --i)
    {
        auto n = s.count[i] * s.block[i];
        auto r = k % n;
        at[i] = s.start[i] + r / s.block[i] * s.stride[i] + r % s.block[i];
        k /= n;
    }
    hsize_t p = 0;
    for (int i = 0; i < s.rank; ++i) p = p * s.dims[i] + at[i];
    return p;
}
inline bool inside(const space_t& s)
{
    if (s.selection != 2) return true;
    for (int i = 0; i < s.rank; ++i) if (s.count[i] && s.start[i] + (s.count[i] - 1) * s.stride[i] + s.block[i] > s.dims[i]) return false;
    return true;
}
inline int object_of(hid_t id)
{
    auto f = get(id, file_k);
    if (f >= 0) return F[f].root;
    return get(id, group_k);
}
inline int find(int o, const char* name)
{
    if (same(name, "/") || same(name, ".")) return same(name, "/") ? 0 : o;
    for (const char* c = name; *c; ++c) vc_assert("names are not paths", *c != '/');
    for (int i = 0; i < O[o].n; ++i) if (same(O[o].name[i], name)) return O[o].member[i];
    return -1;
}
inline int make(int o, const char* name, int kind)
{
    if (! *name || find(o, name) >= 0) return -1;
    vc_assert("room for objects", no < objects && O[o].n < members);
    int len = 0; while (name[len]) ++len;
    int at = O[o].n++;
    while (at > 0 && before(name, O[o].name[at - 1])) { O[o].name[at] = O[o].name[at - 1]; O[o].member[at] = O[o].member[at - 1]; --at; }
    O[o].name[at] = (char*) std::malloc(len + 1);
    copy(O[o].name[at], name, len + 1);
    O[no] = object_t(); O[no].kind = kind;
    return O[o].member[at] = no++;
}
inline herr_t transfer(hid_t d, hid_t type, hid_t mem, hid_t fil, char* out, const char* in)
{
    auto o = get(d, dataset_k), t = get(type, type_k), m = get(mem, space_k), f = get(fil, space_k);
    if (o < 0 || t < 0 || m < 0 || f < 0) return -1;
    vc_assert("no conversion between types", equal(t, O[o].type));
    auto n = selected(S[m]);
    if (n != selected(S[f]) || ! inside(S[m]) || ! inside(S[f])) return -1;
    auto& own = S[O[o].space];
    if (S[f].cls != own.cls || S[f].rank != own.rank) return -1;
    for (int i = 0; i < own.rank; ++i) if (S[f].dims[i] != own.dims[i]) return -1;
    auto z = hsize_t(T[t].size);
    for (hsize_t k = 0; k < n; ++k)
    {
        auto a = position(S[m], k) * z, b = position(S[f], k) * z;
        if (in) std::memcpy(O[o].data + b, in + a, z);
        else    std::memcpy(out + a, O[o].data + b, z);
    }
    return 0;
}
}
extern "C" {
using namespace vc_h5;
hid_t H5T_NATIVE_INT_g = 1, H5T_NATIVE_DOUBLE_g = 2, H5T_NATIVE_ULONG_g = 3, H5T_C_S1_g = 4, H5P_CLS_DATASET_CREATE_ID_g = 5;
herr_t H5open() { return 0; }
herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; }
// errors: the last one is 'failed'
hid_t H5Eget_current_stack() { return 7; }
herr_t H5Ewalk2(hid_t, H5E_direction_t, H5E_walk2_t f, void* data) { H5E_error2_t e = {}; e.desc = "failed"; return f(0, &e, data); }
herr_t H5Eclear2(hid_t) { return 0; }
herr_t H5Eclose_stack(hid_t) { return 0; }
// types
hid_t H5Tcopy(hid_t id)
{
    if (id >= 1 && id <= 4) return give(type_k, simple_type(int(id), id == 1 ? 4 : id == 4 ? 1 : 8));
    int t = get(id, type_k);
    if (t < 0) return -1;
    int k = new_type();
    T[k] = T[t];
    return give(type_k, k);
}
hid_t H5Tcreate(H5T_class_t c, size_t size) { vc_assert("compound", c == H5T_COMPOUND); return give(type_k, simple_type(6, long(size))); }
herr_t H5Tinsert(hid_t id, const char* name, size_t offset, hid_t member)
{
    int t = get(id, type_k), m = get(member, type_k);
    if (t < 0 || m < 0 || T[t].cls != 6 || long(offset) + T[m].size > T[t].size) return -1;
    for (int i = 0; i < T[t].n; ++i) if (same(T[t].m[i].name, name) || (T[t].m[i].offset < long(offset) + T[m].size && long(offset) < T[t].m[i].offset + T[T[t].m[i].type].size)) return -1;
    vc_assert("room for members", T[t].n < 16);
    auto& x = T[t].m[T[t].n++];
    copy(x.name, name, 40); x.offset = long(offset); x.type = m;
    return 0;
}
hid_t H5Tarray_create2(hid_t id, unsigned rank, const hsize_t* dims)
{
    int t = get(id, type_k);
    if (t < 0 || rank != 1 || dims[0] == 0) return -1;
    int k = simple_type(5, T[t].size * long(dims[0]));
    T[k].base = t; T[k].count = long(dims[0]);
    return give(type_k, k);
}
herr_t H5Tclose(hid_t id) { return drop(id, type_k); }
htri_t H5Tequal(hid_t a, hid_t b) { int s = get(a, type_k), t = get(b, type_k); return s < 0 || t < 0 ? -1 : equal(s, t); }
size_t H5Tget_size(hid_t id) { int t = get(id, type_k); return t < 0 ? 0 : size_t(T[t].size); }
herr_t H5Tset_size(hid_t id, size_t n) { int t = get(id, type_k); if (t < 0 || n == 0 || T[t].cls != 4) return -1; T[t].size = long(n); return 0; }
// spaces
hid_t H5Screate(H5S_class_t c) { int k = new_space(); S[k].cls = c == H5S_SCALAR ? 1 : 0; return give(space_k, k); }
hid_t H5Screate_simple(int rank, const hsize_t* dims, const hsize_t* top)
{
    if (rank < 0 || rank > 4) return -1;
    int k = new_space();
    S[k].cls = rank == 0 ? 1 : 2; S[k].rank = rank;
    for (int i = 0; i < rank; ++i) { S[k].dims[i] = dims[i]; S[k].top[i] = top ? top[i] : dims[i]; }
    return give(space_k, k);
}
hid_t H5Scopy(hid_t id) { int s = get(id, space_k); return s < 0 ? -1 : give(space_k, copy_space(s)); }
herr_t H5Sclose(hid_t id) { return drop(id, space_k); }
htri_t H5Sextent_equal(hid_t a, hid_t b)
{
    int s = get(a, space_k), t = get(b, space_k);
    if (s < 0 || t < 0) return -1;
    if (S[s].cls != S[t].cls || S[s].rank != S[t].rank) return 0;
    for (int i = 0; i < S[s].rank; ++i) if (S[s].dims[i] != S[t].dims[i] || S[s].top[i] != S[t].top[i]) return 0;
    return 1;
}
int H5Sget_simple_extent_ndims(hid_t id) { int s = get(id, space_k); return s < 0 ? -1 : S[s].rank; }
hssize_t H5Sget_simple_extent_npoints(hid_t id) { int s = get(id, space_k); return s < 0 ? -1 : hssize_t(points(S[s])); }
int H5Sget_simple_extent_dims(hid_t id, hsize_t* dims, hsize_t* top)
{
    int s = get(id, space_k);
    if (s < 0) return -1;
    for (int i = 0; i < S[s].rank; ++i) { if (dims) dims[i] = S[s].dims[i]; if (top) top[i] = S[s].top[i]; }
    return S[s].rank;
}
hssize_t H5Sget_select_npoints(hid_t id) { int s = get(id, space_k); return s < 0 ? -1 : hssize_t(selected(S[s])); }
herr_t H5Sget_select_bounds(hid_t id, hsize_t* a, hsize_t* b)
{
    int s = get(id, space_k);
    if (s < 0 || S[s].selection == 0) return -1;
    for (int i = 0; i < S[s].rank; ++i)
        if (S[s].selection == 1) { a[i] = 0; b[i] = S[s].dims[i] - 1; }
        else { a[i] = S[s].start[i]; b[i] = S[s].start[i] + (S[s].count[i] - 1) * S[s].stride[i] + S[s].block[i] - 1; }
    return 0;
}
herr_t H5Sselect_all(hid_t id) { int s = get(id, space_k); if (s < 0) return -1; S[s].selection = 1; return 0; }
herr_t H5Sselect_none(hid_t id) { int s = get(id, space_k); if (s < 0) return -1; S[s].selection = 0; return 0; }
herr_t H5Sselect_hyperslab(hid_t id, H5S_seloper_t op, const hsize_t* start, const hsize_t* stride, const hsize_t* count, const hsize_t* block)
{
    int s = get(id, space_k);
    if (s < 0 || S[s].cls != 2 || op != H5S_SELECT_SET) return -1;
    S[s].selection = 2;
    for (int i = 0; i < S[s].rank; ++i)
    {
        if (stride[i] == 0 || (count[i] > 1 && stride[i] < block[i])) return -1;
        S[s].start[i] = start[i]; S[s].stride[i] = stride[i]; S[s].count[i] = count[i]; S[s].block[i] = block[i];
    }
    return 0;
}
// property lists: only the chunk
struct vc_plist_t { int chunked; hsize_t chunk[4]; };
static vc_plist_t vc_plists[2000]; static int vc_nplists = 0;
hid_t H5Pcreate(hid_t) { vc_plists[vc_nplists] = vc_plist_t(); return give(plist_k, vc_nplists++); }
hid_t H5Pcopy(hid_t id) { int p = get(id, plist_k); if (p < 0) return -1; vc_plists[vc_nplists] = vc_plists[p]; return give(plist_k, vc_nplists++); }
herr_t H5Pclose(hid_t id) { return drop(id, plist_k); }
herr_t H5Pset_chunk(hid_t id, int rank, const hsize_t* dims)
{
    int p = get(id, plist_k);
    if (p < 0 || rank < 1 || rank > 4) return -1;
    vc_plists[p].chunked = rank;
    for (int i = 0; i < rank; ++i) vc_plists[p].chunk[i] = dims[i];
    return 0;
}
htri_t H5Pequal(hid_t a, hid_t b)
{
    int p = get(a, plist_k), q = get(b, plist_k);
    if (p < 0 || q < 0) return -1;
    if (vc_plists[p].chunked != vc_plists[q].chunked) return 0;
    for (int i = 0; i < vc_plists[p].chunked; ++i) if (vc_plists[p].chunk[i] != vc_plists[q].chunk[i]) return 0;
    return 1;
}
// files
hid_t H5Fcreate(const char* name, unsigned, hid_t, hid_t)
{
    int f = -1;
    for (int i = 0; i < nf; ++i) if (same(F[i].name, name)) f = i;
    if (f >= 0 && F[f].opened) return -1;
    if (f < 0) { vc_assert("room for files", nf < 8); f = nf++; copy(F[f].name, name, 80); }
    if (no == 0) no = 1;     // object 0 stands for no object
    F[f].root = no; O[no] = object_t(); O[no].kind = group_k; ++no;
    F[f].opened = 1; F[f].rdonly = 0;
    return give(file_k, f);
}
hid_t H5Fopen(const char* name, unsigned flags, hid_t)
{
    for (int i = 0; i < nf; ++i)
        if (same(F[i].name, name))
        {
            if (F[i].opened && F[i].rdonly != (flags == H5F_ACC_RDONLY)) return -1;
            ++F[i].opened; F[i].rdonly = flags == H5F_ACC_RDONLY;
            return give(file_k, i);
        }
    return -1;
}
herr_t H5Fclose(hid_t id) { int f = get(id, file_k); if (f < 0) return -1; --F[f].opened; return drop(id, file_k); }
htri_t H5Fis_hdf5(const char* name) { for (int i = 0; i < nf; ++i) if (same(F[i].name, name)) return 1; return -1; }
herr_t H5Fget_intent(hid_t id, unsigned* flags) { int f = get(id, file_k); if (f < 0) return -1; *flags = F[f].rdonly ? H5F_ACC_RDONLY : H5F_ACC_RDWR; return 0; }
ssize_t H5Fget_name(hid_t id, char* to, size_t n) { int f = get(id, file_k); if (f < 0) return -1; int k = 0; while (F[f].name[k]) ++k; copy(to, F[f].name, int(n)); return k; }
// groups.  The root of the file a location is in is looked up by name "/"
static int vc_root_of(int o)
{
    // the file whose tree holds the object: the last root made before it is not enough when files interleave, so search
    for (int f = 0; f < nf; ++f)
    {
        int stack[objects], n = 0;
        stack[n++] = F[f].root;
        while (n > 0) { int k = stack[--n]; if (k == o) return F[f].root; if (O[k].kind == group_k) for (int i = 0; i < O[k].n; ++i) stack[n++] = O[k].member[i]; }
    }
    return -1;
}
static int vc_lookup(hid_t id, const char* name) { int o = object_of(id); if (o < 0) return -1; int k = find(o, name); return k == 0 ? vc_root_of(o) : k; }
hid_t H5Gopen2(hid_t id, const char* name, hid_t) { int k = vc_lookup(id, name); return k < 0 || O[k].kind != group_k ? -1 : give(group_k, k); }
hid_t H5Gcreate2(hid_t id, const char* name, hid_t, hid_t, hid_t) { int o = object_of(id); if (o < 0) return -1; int k = make(o, name, group_k); return k < 0 ? -1 : give(group_k, k); }
herr_t H5Gclose(hid_t id) { return drop(id, group_k); }
htri_t H5Lexists(hid_t id, const char* name, hid_t) { int o = object_of(id); return o < 0 ? -1 : vc_lookup(id, name) >= 0; }
herr_t H5Oget_info_by_name(hid_t id, const char* name, H5O_info_t* info, hid_t)
{
    int k = vc_lookup(id, name);
    if (k < 0) return -1;
    info->type = O[k].kind == group_k ? H5O_TYPE_GROUP : H5O_TYPE_DATASET;
    return 0;
}
herr_t H5Literate(hid_t id, H5_index_t, H5_iter_order_t, hsize_t* idx, H5L_iterate_t f, void* data)
{
    int o = object_of(id);
    if (o < 0) return -1;
    H5L_info_t info = {};
    while (*idx < hsize_t(O[o].n)) { auto r = f(id, O[o].name[*idx], &info, data); ++*idx; if (r) return r; }
    return 0;
}
ssize_t H5Lget_name_by_idx(hid_t id, const char*, H5_index_t, H5_iter_order_t, hsize_t k, char* to, size_t n, hid_t)
{
    int o = object_of(id);
    if (o < 0 || k >= hsize_t(O[o].n)) return -1;
    copy(to, O[o].name[k], int(n));
    int len = 0; while (to[len]) ++len;
    return len;
}
// datasets
hid_t H5Dcreate2(hid_t id, const char* name, hid_t type, hid_t space, hid_t, hid_t plist, hid_t)
{
    int o = object_of(id), t = get(type, type_k), s = get(space, space_k), p = get(plist, plist_k);
    if (o < 0 || t < 0 || s < 0 || p < 0) return -1;
    for (int i = 0; i < S[s].rank; ++i) if (S[s].top[i] != S[s].dims[i] && ! vc_plists[p].chunked) return -1;
    int k = make(o, name, dataset_k);
    if (k < 0) return -1;
    O[k].type = t = new_type() , T[O[k].type] = T[get(type, type_k)];
    O[k].space = copy_space(s); S[O[k].space].selection = 1;
    O[k].chunked = vc_plists[p].chunked;
    for (int i = 0; i < 4; ++i) O[k].chunk[i] = vc_plists[p].chunk[i];
    O[k].data = (char*) std::malloc(points(S[s]) * hsize_t(T[t].size) + 1);
    return give(dataset_k, k);
}
hid_t H5Dopen2(hid_t id, const char* name, hid_t) { int k = vc_lookup(id, name); return k < 0 || O[k].kind != dataset_k ? -1 : give(dataset_k, k); }
herr_t H5Dclose(hid_t id) { return drop(id, dataset_k); }
hid_t H5Dget_space(hid_t id) { int o = get(id, dataset_k); return o < 0 ? -1 : give(space_k, copy_space(O[o].space)); }
hid_t H5Dget_type(hid_t id) { int o = get(id, dataset_k); if (o < 0) return -1; int k = new_type(); T[k] = T[O[o].type]; return give(type_k, k); }
hid_t H5Dget_create_plist(hid_t id)
{
    int o = get(id, dataset_k);
    if (o < 0) return -1;
    auto p = H5Pcreate(0);
    auto& x = vc_plists[get(p, plist_k)];
    x.chunked = O[o].chunked;
    for (int i = 0; i < 4; ++i) x.chunk[i] = O[o].chunk[i];
    return p;
}
herr_t H5Dset_extent(hid_t id, const hsize_t* dims)
{
    int o = get(id, dataset_k);
    if (o < 0) return -1;
    auto old = S[O[o].space];
    if (old.rank != 1 || dims[0] > old.top[0] || ! O[o].chunked) return -1;
    auto z = hsize_t(T[O[o].type].size);
    auto data = (char*) std::malloc(dims[0] * z + 1);
    std::memcpy(data, O[o].data, (dims[0] < old.dims[0] ? dims[0] : old.dims[0]) * z);
    O[o].data = data;
    S[O[o].space].dims[0] = dims[0];
    return 0;
}
herr_t H5Dwrite(hid_t d, hid_t type, hid_t mem, hid_t fil, hid_t, const void* p) { return transfer(d, type, mem, fil, nullptr, (const char*) p); }
herr_t H5Dread(hid_t d, hid_t type, hid_t mem, hid_t fil, hid_t, void* p) { return transfer(d, type, mem, fil, (char*) p, nullptr); }
}
#endif
