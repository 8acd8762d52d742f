// Stand-in for the Exodus library: it writes every call with its full arguments, as text, to the file being "created".
// Calls that a real library would refuse (wrong order, unknown block, bad sizes) are written as "ERROR ..." records.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <map>
#include <utility>
#define EX_VERBOSE 1
#define EX_DEBUG 2
#define EX_ABORT 4
#define EX_CLOBBER 8
#define EX_64BIT_OFFSET 16
#define MAX_LINE_LENGTH 80
#define MAX_STR_LENGTH 32
enum ex_entity_type { EX_NODAL = 14, EX_NODE_BLOCK = 14, EX_NODE_SET = 2, EX_EDGE_BLOCK = 6, EX_EDGE_SET = 7, EX_FACE_BLOCK = 8, EX_FACE_SET = 9, EX_ELEM_BLOCK = 1, EX_ELEM_SET = 10, EX_SIDE_SET = 3,
                      EX_ELEM_MAP = 4, EX_NODE_MAP = 5, EX_EDGE_MAP = 11, EX_FACE_MAP = 12, EX_GLOBAL = 13, EX_COORDINATE = 15, EX_ASSEMBLY = 16, EX_BLOB = 17, EX_INVALID = -1 };
struct ex_init_params { char title[MAX_LINE_LENGTH + 1]; int64_t num_dim, num_nodes, num_edge, num_edge_blk, num_face, num_face_blk, num_elem, num_elem_blk, num_node_sets, num_edge_sets, num_face_sets, num_side_sets, num_elem_sets, num_node_maps, num_edge_maps, num_face_maps, num_elem_maps; };

namespace exstub {
struct Block { int64_t n, nodes, edges, faces; };
struct State { FILE* f = nullptr; int word = 4; bool init = false; ex_init_params p; std::map<std::pair<int, int64_t>, Block> blocks; std::map<std::pair<int, int64_t>, int64_t> sets; };
inline State& st() { static State s; return s; }
inline int err(const char* what) { if (st().f) std::fprintf(st().f, "ERROR %s\n", what); return -1; }
inline void ints(const char* tag, const void* v, int64_t n) { const int* a = (const int*)v; std::fprintf(st().f, "%s %lld", tag, (long long)n); for (int64_t i = 0; i < n; i++) std::fprintf(st().f, " %d", a[i]); std::fprintf(st().f, "\n"); }
inline void reals(const char* tag, const void* v, int64_t n) {
	std::fprintf(st().f, "%s %lld", tag, (long long)n);
	for (int64_t i = 0; i < n; i++) std::fprintf(st().f, " %.17g", st().word == 8 ? ((const double*)v)[i] : (double)((const float*)v)[i]);
	std::fprintf(st().f, "\n");
}
}
inline int ex_opts(int) { return 0; }
inline char* ex_copy_string(char* d, const char* s, size_t n) { std::strncpy(d, s, n - 1); d[n - 1] = 0; return d; }
inline int ex_create(const char* path, int, int* cpu, int* io) {
	exstub::State& s = exstub::st();
	if (s.f) return exstub::err("second ex_create");
	s = exstub::State(); s.f = std::fopen(path, "w"); if (!s.f) return -1;
	if (*cpu == 0) *cpu = 4; if (*io == 0) *io = 4; s.word = *cpu;
	std::fprintf(s.f, "create cpu %d io %d\n", *cpu, *io); return 77;
}
inline int ex_put_init_ext(int id, const ex_init_params* p) {
	exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; if (s.init) return exstub::err("second ex_put_init_ext");
	s.init = true; s.p = *p;
	std::fprintf(s.f, "init dim %lld nodes %lld faces %lld face_blocks %lld elems %lld elem_blocks %lld node_sets %lld side_sets %lld\n", (long long)p->num_dim, (long long)p->num_nodes, (long long)p->num_face, (long long)p->num_face_blk, (long long)p->num_elem, (long long)p->num_elem_blk, (long long)p->num_node_sets, (long long)p->num_side_sets);
	return 0;
}
inline int ex_put_coord(int id, const void* x, const void* y, const void* z) {
	exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; if (!s.init) return exstub::err("coordinates before initialisation");
	if (x) exstub::reals("x", x, s.p.num_nodes); if (y) exstub::reals("y", y, s.p.num_nodes); if (z) exstub::reals("z", z, s.p.num_nodes); return 0;
}
inline int ex_put_coord_names(int id, char* const n[]) { exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; if (!s.init) return exstub::err("names before initialisation"); std::fprintf(s.f, "coord_names"); for (int64_t i = 0; i < s.p.num_dim; i++) std::fprintf(s.f, " %s", n[i]); std::fprintf(s.f, "\n"); return 0; }
inline int ex_put_block(int id, ex_entity_type t, int64_t b, const char* kind, int64_t n, int64_t nodes, int64_t edges, int64_t faces, int64_t attr) {
	exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; if (!s.init) return exstub::err("block before initialisation");
	if (s.blocks.count({t, b})) return exstub::err("block defined twice");
	s.blocks[{t, b}] = {n, nodes, edges, faces};
	std::fprintf(s.f, "block %d %lld %s n %lld nodes %lld edges %lld faces %lld attr %lld\n", (int)t, (long long)b, kind, (long long)n, (long long)nodes, (long long)edges, (long long)faces, (long long)attr); return 0;
}
inline int ex_get_block(int id, ex_entity_type t, int64_t b, char*, void* n, void* nodes, void* edges, void* faces, void*) {
	exstub::State& s = exstub::st(); auto i = s.blocks.find({t, b}); if (!s.f || id != 77 || i == s.blocks.end()) return -1;
	if (n) *(int*)n = (int)i->second.n; if (nodes) *(int*)nodes = (int)i->second.nodes; if (edges) *(int*)edges = (int)i->second.edges; if (faces) *(int*)faces = (int)i->second.faces; return 0;
}
inline int ex_put_names(int id, ex_entity_type t, char* const n[]) { exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; std::fprintf(s.f, "names %d %s\n", (int)t, n[0]); return 0; }
inline int ex_put_name(int id, ex_entity_type t, int64_t b, const char* n) { exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; std::fprintf(s.f, "name %d %lld %s\n", (int)t, (long long)b, n); return 0; }
inline int ex_put_conn(int id, ex_entity_type t, int64_t b, const void* nodes, const void* edges, const void* faces) {
	exstub::State& s = exstub::st(); auto i = s.blocks.find({t, b}); if (!s.f || id != 77) return -1; if (i == s.blocks.end()) return exstub::err("connectivity of an unknown block");
	// polyhedral blocks (nsided, nfaced) hold totals instead of numbers per entry; the unit blocks say so by n entries
	const exstub::Block& k = i->second; bool total = t == EX_FACE_BLOCK || (k.nodes == 0 && k.edges == 0);
	char tag[64]; std::snprintf(tag, sizeof tag, "conn %d %lld nodes", (int)t, (long long)b); if (nodes) exstub::ints(tag, nodes, total ? k.nodes : k.n * k.nodes);
	std::snprintf(tag, sizeof tag, "conn %d %lld edges", (int)t, (long long)b); if (edges) exstub::ints(tag, edges, k.n * k.edges);
	std::snprintf(tag, sizeof tag, "conn %d %lld faces", (int)t, (long long)b); if (faces) exstub::ints(tag, faces, total ? k.faces : k.n * k.faces);
	return 0;
}
inline int ex_put_entity_count_per_polyhedra(int id, ex_entity_type t, int64_t b, const int* c) {
	exstub::State& s = exstub::st(); auto i = s.blocks.find({t, b}); if (!s.f || id != 77) return -1; if (i == s.blocks.end()) return exstub::err("counts of an unknown block");
	char tag[64]; std::snprintf(tag, sizeof tag, "counts %d %lld", (int)t, (long long)b); exstub::ints(tag, c, i->second.n); return 0;
}
inline int ex_put_qa(int id, int n, char* r[][4]) { if (id != 77) return -1; for (int i = 0; i < n; i++) for (int j = 0; j < 4; j++) if (std::strlen(r[i][j]) > MAX_STR_LENGTH) return exstub::err("long QA record"); return 0; }
inline int ex_put_info(int id, int n, char* r[]) { if (id != 77) return -1; for (int i = 0; i < n; i++) if (std::strlen(r[i]) > MAX_LINE_LENGTH) return exstub::err("long information record"); return 0; }
inline int ex_put_id_map(int id, ex_entity_type t, const void* m) { exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; exstub::ints(t == EX_NODE_MAP ? "map nodes" : "map elems", m, t == EX_NODE_MAP ? s.p.num_nodes : s.p.num_elem); return 0; }
inline int ex_put_set_param(int id, ex_entity_type t, int64_t b, int64_t n, int64_t) { exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; s.sets[{t, b}] = n; return 0; }
inline int ex_put_set(int id, ex_entity_type t, int64_t b, const void* a, const void* e) {
	exstub::State& s = exstub::st(); auto i = s.sets.find({t, b}); if (!s.f || id != 77) return -1; if (i == s.sets.end()) return exstub::err("unknown set");
	char tag[64]; std::snprintf(tag, sizeof tag, "set %d %lld", (int)t, (long long)b); if (a) exstub::ints(tag, a, i->second); std::snprintf(tag, sizeof tag, "set_extra %d %lld", (int)t, (long long)b); if (e) exstub::ints(tag, e, i->second); return 0;
}
inline int ex_close(int id) { exstub::State& s = exstub::st(); if (!s.f || id != 77) return -1; std::fprintf(s.f, "close\n"); std::fclose(s.f); s.f = nullptr; return 0; }
