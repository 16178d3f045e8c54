// Reading of Gmsh files (the in-memory representations of both file formats).
// units: core gmsh
// bound: two-cell meshes (triangles, triangle and quadrilateral) in the plane or in space with arbitrary coordinates (within 0.1 of a base shape) and arbitrary physical groups of every seventh entry (fixed groups for the others); all injective numberings of 4 nodes and one unused node by 1..6; every subset of the edges listed in either direction; point entries for every subset of the nodes; every entity in one or two groups; elements listed cells first, edges first, points first or interleaved; second-order cells and edges; file formats 2 and 4 (several blocks and entities, partitioned or not); names of up to 3 physical groups
// outside: three-dimensional cells; entries of the same element that are not adjacent in the file; edges that belong to no cell; elements whose node order differs between repeated entries; the parsers of the text and binary files
#include "meshes.h"
#include <lf/io/gmsh_reader.h>
#include <lfs_try.h>
using namespace harness;
using lf::io::GMshFileV2;
using lf::io::GMshFileV4;
using lf::io::GmshReader;
using lf::mesh::Entity;
// arbitrary groups for some of the entities of a file, fixed ones for the others
struct Groups : std::vector<int> { bool sym = false; using std::vector<int>::vector; };
static int gCount = 0, gSym = 0;
struct Item { int type; std::vector<U> nodes; Groups groups; };   // nodes: positions in the list of nodes of the file
// A file: nodes in the order of the file with their numbers, elements in order
struct File {
  Mat pts;                 // coordinates by position in the file (three rows)
  std::vector<U> number;   // file number of each node
  std::vector<Item> items;
};
static Groups groups(int n) {
  Groups g;
  g.sym = gCount++ % 7 == gSym;
  for (int i = 0; i < n; i++) g.push_back(g.sym ? lfs_int("group", 1, 1000) : 1 + (gCount * 37 + i * 501) % 1000);
  return g;
}
static GMshFileV2 v2(const File& f) {
  GMshFileV2 r;
  for (int i = 0; i < f.pts.cols(); i++) r.Nodes.emplace_back(f.number[i], Eigen::Vector3d(f.pts(0, i), f.pts(1, i), f.pts(2, i)));
  U nr = 1;
  for (auto& e : f.items)
    for (int g : e.groups) {
      GMshFileV2::Element x;
      x.Number = nr++;
      x.Type = (GMshFileV2::ElementType)e.type;
      x.PhysicalEntityNr = g;
      x.ElementaryEntityNr = 1;
      for (U n : e.nodes) x.NodeNumbers.push_back(f.number[n]);
      r.Elements.push_back(x);
    }
  return r;
}
static int dimOf(int type) { return type == 15 ? 0 : type == 1 || type == 8 ? 1 : 2; }
// every item is an elementary entity with a block of its own; items with the same type may share one if together
static GMshFileV4 v4(const File& f, bool partitioned, bool together) {
  GMshFileV4 r;
  r.nodes.num_nodes = f.pts.cols();
  r.nodes.min_node_tag = *std::min_element(f.number.begin(), f.number.end());
  r.nodes.max_node_tag = *std::max_element(f.number.begin(), f.number.end());
  // two blocks of nodes
  const int half = f.pts.cols() / 2;
  for (int b = 0; b < 2; b++) {
    GMshFileV4::NodeBlock nb;
    nb.entity_dim = b;
    nb.entity_tag = 1;
    for (int i = b ? half : 0; i < (b ? f.pts.cols() : half); i++) nb.nodes.emplace_back(f.number[i], Eigen::Vector3d(f.pts(0, i), f.pts(1, i), f.pts(2, i)));
    r.nodes.node_blocks.push_back(nb);
  }
  r.partitioned_entities.num_partitions = partitioned ? 2 : 0;
  int tag[3] = {2, 3, 5};
  for (size_t k = 0; k < f.items.size(); k++) {
    const Item& e = f.items[k];
    const int d = dimOf(e.type);
    const bool join = together && k && f.items[k - 1].type == e.type && f.items[k - 1].groups == e.groups;
    if (!join) {
      tag[d] += 1 + d;
      GMshFileV4::ElementBlock b;
      b.dimension = d;
      b.entity_tag = tag[d];
      b.element_type = (GMshFileV4::ElementType)e.type;
      r.elements.element_blocks.push_back(b);
      auto fill = [&](auto& x) { x.tag = tag[d]; x.physical_tags = e.groups; };
      if (partitioned) {
        auto& p = r.partitioned_entities.partitioned_entities;
        if (d == 0) { std::get<0>(p).emplace_back(); fill(std::get<0>(p).back()); }
        else if (d == 1) { std::get<1>(p).emplace_back(); fill(std::get<1>(p).back()); }
        else { std::get<2>(p).emplace_back(); fill(std::get<2>(p).back()); }
      } else {
        auto& p = r.entities;
        if (d == 0) { std::get<0>(p).emplace_back(); fill(std::get<0>(p).back()); }
        else if (d == 1) { std::get<1>(p).emplace_back(); fill(std::get<1>(p).back()); }
        else { std::get<2>(p).emplace_back(); fill(std::get<2>(p).back()); }
      }
    }
    std::vector<std::size_t> nn;
    for (U n : e.nodes) nn.push_back(f.number[n]);
    r.elements.element_blocks.back().elements.emplace_back(k + 1, nn);
    r.elements.num_elements++;
  }
  return r;
}
static int corners(int type) { return type == 15 ? 1 : type == 1 || type == 8 ? 2 : type == 2 || type == 9 ? 3 : 4; }
static void sameGroups(const GmshReader& r, const Entity& e, Groups want) {
  auto got = r.PhysicalEntityNr(e);
  lfs_assert(got.size() == want.size(), "an entity carries as many groups as it has entries in the file");
  for (size_t i = 0; i < want.size(); i++) {
    int a = 0, b = 0;
    for (size_t j = 0; j < want.size(); j++) { a += (int)got[j] == want[i]; b += want[j] == want[i]; }
    lfs_assert(a == b, "an entity carries the groups of its entries");
  }
  for (size_t i = 1; i < got.size(); i++) lfs_assert(got[i - 1] <= got[i], "the groups of an entity are sorted");
  std::vector<int> ask;
  if (want.sym) ask = {lfs_int("other", 1, 1000)};
  else { ask = want; ask.push_back(0); for (int g : want) ask.push_back(g + 1); }
  for (int other : ask) {
    int in = 0;
    for (int g : want) in |= g == other;
    lfs_assert(r.IsPhysicalEntity(e, other) == (in != 0), "an entity belongs to a group exactly if it is listed with it");
  }
}
static void check(GmshReader& r, const File& f, int wd) {
  auto m = r.mesh();
  // nodes of cells and edges, in the order of the file
  std::vector<int> pos(f.pts.cols(), -1);
  for (auto& e : f.items) if (e.type != 15) for (int i = 0; i < corners(e.type); i++) pos[e.nodes[i]] = 0;
  int nn = 0;
  for (int& p : pos) if (p == 0) p = nn++;
  Mat q(wd, nn);
  for (int i = 0; i < f.pts.cols(); i++) if (pos[i] >= 0) for (int d = 0; d < wd; d++) q(d, pos[i]) = f.pts(d, i);
  std::vector<std::vector<U>> cells;
  std::vector<Edge> edges;
  std::vector<Groups> cg, eg, ng(nn);
  std::vector<const Item*> ci, ei;
  for (auto& e : f.items) {
    std::vector<U> c;
    for (int i = 0; i < corners(e.type); i++) c.push_back(pos[e.nodes[i]]);
    if (dimOf(e.type) == 2) { cells.push_back(c); cg.push_back(e.groups); ci.push_back(&e); }
    else if (dimOf(e.type) == 1) { edges.emplace_back(c[0], c[1]); eg.push_back(e.groups); ei.push_back(&e); }
    else if (pos[e.nodes[0]] >= 0) for (int g : e.groups) ng[c[0]].push_back(g);
  }
  lfs_assert(m->DimWorld() == (U)wd, "dimension of the space");
  checkTopology(*m, nn, cells, edges, true);
  checkGeometry(*m, q, false);
  for (const Entity* e : m->Entities(0)) sameGroups(r, *e, cg[m->Index(*e)]);
  for (const Entity* e : m->Entities(1)) sameGroups(r, *e, m->Index(*e) < eg.size() ? eg[m->Index(*e)] : Groups());
  for (const Entity* e : m->Entities(2)) sameGroups(r, *e, ng[m->Index(*e)]);
  // nodes of second-order geometries
  auto mids = [&](const Entity& e, const Item& it) {
    const int k = corners(it.type);
    if ((int)it.nodes.size() == k) return;
    Mat nc = e.RefEl().NodeCoords(), x(nc.rows(), k == 2 ? 1 : k);
    for (int i = 0; i < x.cols(); i++) x.col(i) = 0.5 * (nc.col(i) + nc.col((i + 1) % k));
    Mat y = e.Geometry()->Global(x);
    for (int i = 0; i < x.cols(); i++) for (int d = 0; d < wd; d++) lfs_near(y(d, i), f.pts(d, it.nodes[k + i]), 1e-9, "auxiliary nodes lie on the curved edges");
  };
  for (size_t i = 0; i < ci.size(); i++) mids(*m->EntityByIndex(0, i), *ci[i]);
  for (size_t i = 0; i < ei.size(); i++) mids(*m->EntityByIndex(1, i), *ei[i]);
}
static void read(const File& f, int wd, int version, bool partitioned = false, bool together = false) {
  auto fac = std::make_unique<lf::mesh::hybrid2d::MeshFactory>(wd);
  if (version == 2) { GmshReader r(std::move(fac), v2(f)); check(r, f, wd); }
  else { GmshReader r(std::move(fac), v4(f, partitioned, together)); check(r, f, wd); }
}
static Mat nodes(const Topo& t, int wd, int extra, double r = 0.1) {
  Mat p = points(t, wd, r), q = Mat::Zero(3, p.cols() + extra);
  for (int i = 0; i < p.cols(); i++) for (int d = 0; d < wd; d++) q(d, i) = p(d, i);
  for (int i = p.cols(); i < q.cols(); i++) { q(0, i) = 7 + i; q(1, i) = -3; }
  return q;
}
static int cellType(const std::vector<U>& c) { return c.size() == 3 ? 2 : 3; }
// --- numberings
static void numbering(int version) {
  Topo t = baseTopo(T_TRITRI);
  const int wd = 2 + lfs_choice("world", 2);
  gCount = 0, gSym = lfs_thorough() ? lfs_choice("arbitrary", 5) : 1;
  File f;
  f.pts = nodes(t, wd, 1);
  // the unused node is anywhere in the file
  const int at = lfs_choice("unused node", 2) ? 0 : 4;
  std::vector<U> map;
  for (int i = 0; i < 4; i++) map.push_back(at == 0 ? i + 1 : i);
  if (at == 0) { Mat p = f.pts; for (int i = 0; i < 5; i++) f.pts.col((i + 1) % 5) = p.col(i); }
  for (int i = 0; i < 5; i++) {
    U n = 1 + lfs_choice("number", 6);
    for (U k : f.number) if (k == n) return;
    f.number.push_back(n);
  }
  auto mapped = [&](std::vector<U> c) { for (U& v : c) v = map[v]; return c; };
  f.items.push_back({15, {(U)at}, groups(2)});
  f.items.push_back({15, mapped({2}), groups(1)});
  f.items.push_back({1, mapped({1, 0}), groups(2)});
  f.items.push_back({2, mapped(t.cells[0]), groups(1)});
  f.items.push_back({2, mapped(t.cells[1]), groups(2)});
  f.items.push_back({1, mapped({1, 2}), groups(1)});
  read(f, wd, version);
}
LFS_CASE(numbering_v2) { numbering(2); }
LFS_CASE(numbering_v4) { numbering(4); }
// --- structure of the list of elements
static void structure(int version, int id, int maxEdges) {
  Topo t = baseTopo(id);
  const int wd = 2 + lfs_choice("world", 2);
  File f;
  f.pts = nodes(t, wd, 0);
  const int n = f.pts.cols();
  for (int i = 0; i < n; i++) f.number.push_back(3 + (7 * i) % 11);   // sparse and unordered
  std::vector<Item> cells, edges, pts;
  const int dup = lfs_choice("groups", 4);   // which kinds of entities are in two groups
  auto count = [&](int i, int kind) { return dup == 0 ? 1 : dup == 1 ? 1 + (i + kind) % 2 : dup == 2 ? 2 - (i + kind) % 2 : 2; };
  auto es = edgesOf(t.cells);
  gCount = 0, gSym = lfs_thorough() ? lfs_choice("arbitrary", 5) : wd;
  int k = 0, mask = lfs_choice("edges", 1 << std::min<int>(maxEdges, es.size())), dir = lfs_choice("direction", 2);
  for (auto& e : es) { if (mask >> k & 1) edges.push_back({1, (k + dir) % 2 ? std::vector<U>{e.second, e.first} : std::vector<U>{e.first, e.second}, groups(count(k, 1))}); k++; }
  if (dir) std::reverse(edges.begin(), edges.end());
  k = 0;
  for (auto& c : t.cells) { cells.push_back({cellType(c), c, groups(count(k, 0))}); k++; }
  const int pm = lfs_choice("points", 4);   // which nodes are listed
  for (int i = n - 1; i >= 0; i--) if (pm == 1 || (pm == 2 && i % 2) || (pm == 3 && i == n - 1)) pts.push_back({15, {(U)i}, groups(count(i, 2))});
  auto put = [&](const std::vector<Item>& v) { for (auto& x : v) f.items.push_back(x); };
  switch (lfs_choice("order", 4)) {
    case 0: put(cells); put(edges); put(pts); break;
    case 1: put(edges); put(pts); put(cells); break;
    case 2: put(pts); put(edges); put(cells); break;
    default:
      for (size_t i = 0; i < std::max({cells.size(), edges.size(), pts.size()}); i++) {
        if (i < pts.size()) f.items.push_back(pts[i]);
        if (i < cells.size()) f.items.push_back(cells[i]);
        if (i < edges.size()) f.items.push_back(edges[i]);
      }
  }
  const int how = version == 4 ? lfs_choice("blocks", 2) : 0;
  read(f, wd, version, how, false);
}
LFS_CASE(structure_v2_tritri) { structure(2, T_TRITRI, 3); }
LFS_CASE(structure_v2_triquad) { structure(2, T_TRIQUAD, 2); }
LFS_CASE(structure_v4_tritri) { structure(4, T_TRITRI, 2); }
LFS_CASE(structure_v4_triquad) { structure(4, T_TRIQUAD, 1); }
LFS_CASE_THOROUGH(structure_v2_all_edges) { structure(2, T_TRITRI, 5); }
LFS_CASE_THOROUGH(structure_v4_all_edges) { structure(4, T_TRITRI, 5); }
// several elements in a block
LFS_CASE(blocks_v4) {
  Topo t = baseTopo(T_TRITRI);
  File f;
  f.pts = nodes(t, 2, 0);
  for (int i = 0; i < 4; i++) f.number.push_back(9 - 2 * i);
  gCount = 0, gSym = lfs_choice("arbitrary", 3);
  Groups a = groups(2), b = groups(1), c = groups(lfs_choice("no group", 2));
  for (auto& x : t.cells) f.items.push_back({2, x, a});
  for (auto& e : edgesOf(t.cells)) f.items.push_back({1, {e.first, e.second}, e.first == 0 ? b : c});
  for (U i = 0; i < 4; i++) f.items.push_back({15, {3 - i}, i < 2 ? a : b});
  read(f, 2, 4, lfs_choice("partitioned", 2), true);
}
// --- second order
static void second(int version) {
  // one cell, optionally one of its edges
  const int kind = lfs_choice("cell", 3);   // TRIA6, QUAD8, QUAD9
  const int wd = 2 + lfs_choice("world", 2);
  gCount = 0, gSym = 0;
  Topo t = baseTopo(kind ? T_QUAD : T_TRI);
  const int k = kind ? 4 : 3, n = 2 * k + (kind == 2);
  Mat p = nodes(t, wd, 0, 0.05);
  File f;
  f.pts = Mat::Zero(3, n);
  std::vector<U> nd;
  const int shift = lfs_choice("order of the nodes", 3);   // file position of the i-th node of the cell
  for (int i = 0; i < n; i++) nd.push_back((i + (shift == 1 ? k : 0)) % n);
  if (shift == 2) std::reverse(nd.begin(), nd.end());
  for (int i = 0; i < n; i++)
    for (int d = 0; d < wd; d++) {
      double v;
      if (i < k) v = p(d, i);
      else if (i < 2 * k) v = 0.5 * (p(d, i - k) + p(d, (i - k + 1) % k)) + lfs_real("bulge", -0.05, 0.05);
      else { v = 0; for (int j = 0; j < k; j++) v += p(d, j) / k; }
      f.pts(d, nd[i]) = v;
    }
  for (int i = 0; i < n; i++) f.number.push_back(2 + (i * 5) % 23);
  f.items.push_back({kind == 0 ? 9 : kind == 1 ? 16 : 10, nd, groups(1)});
  const int e = lfs_choice("edge", k + 1), rev = e < k ? lfs_choice("reversed", 2) : 0;
  if (e < k) {
    std::vector<U> x{nd[rev ? (e + 1) % k : e], nd[rev ? e : (e + 1) % k], nd[k + e]};
    f.items.insert(f.items.begin() + lfs_choice("first", 2), {8, x, groups(2)});
  }
  read(f, wd, version);
}
LFS_CASE(second_order_v2) { second(2); }
LFS_CASE(second_order_v4) { second(4); }
// --- names
static void names(int version) {
  Topo t = baseTopo(T_TRI);
  File f;
  f.pts = nodes(t, 2, 0, 0);
  f.number = {1, 2, 3};
  f.items.push_back({2, t.cells[0], {1}});
  struct Name { int dim, nr, name; };
  std::vector<Name> v;
  const char* text[3] = {"a", "b", "ab"};
  const int n = lfs_choice("names", 4);
  for (int i = 0; i < n; i++) {
    Name x{lfs_choice("dim", 3), 1 + lfs_choice("number", 2), lfs_choice("name", 2)};
    // numbers and names are unique per dimension
    for (auto& y : v) if (y.dim == x.dim && (y.nr == x.nr || y.name == x.name)) return;
    v.push_back(x);
  }
  auto fac = std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2);
  std::unique_ptr<GmshReader> r;
  if (version == 2) {
    GMshFileV2 g = v2(f);
    for (auto& x : v) { GMshFileV2::PhysicalEntity p; p.Dimension = x.dim; p.Number = x.nr; p.Name = text[x.name]; g.PhysicalEntities.push_back(p); }
    r = std::make_unique<GmshReader>(std::move(fac), g);
  } else {
    GMshFileV4 g = v4(f, false, false);
    for (auto& x : v) { GMshFileV4::PhysicalName p; p.dimension = x.dim; p.physical_tag = x.nr; p.name = text[x.name]; g.physical_names.push_back(p); }
    r = std::make_unique<GmshReader>(std::move(fac), g);
  }
  for (int codim = -1; codim < 3; codim++) {
    for (int nr = 1; nr < 4; nr++) {
      std::vector<Name> hit;
      for (auto& x : v) if (x.nr == nr && (codim < 0 || x.dim == 2 - codim)) hit.push_back(x);
      std::string got;
      bool ok = lfs_accepts([&] { got = r->PhysicalEntityNr2Name(nr, codim); });
      lfs_assert(ok == (hit.size() == 1), "a group is found by its number exactly if it is determined by it");
      if (ok) lfs_assert(got == text[hit[0].name], "name of a group");
    }
    for (int na = 0; na < 3; na++) {
      std::vector<Name> hit;
      for (auto& x : v) if (x.name == na && (codim < 0 || x.dim == 2 - codim)) hit.push_back(x);
      U got = 0;
      bool ok = lfs_accepts([&] { got = r->PhysicalEntityName2Nr(text[na], codim); });
      lfs_assert(ok == (hit.size() == 1), "a group is found by its name exactly if it is determined by it");
      if (ok) lfs_assert((int)got == hit[0].nr, "number of a group");
    }
    if (codim < 0) continue;
    auto all = r->PhysicalEntities(codim);
    size_t cnt = 0;
    for (auto& x : v) {
      if (x.dim != 2 - codim) continue;
      cnt++;
      bool found = false;
      for (auto& y : all) found = found || ((int)y.first == x.nr && y.second == text[x.name]);
      lfs_assert(found, "every named group is listed");
    }
    lfs_assert(all.size() == cnt, "only the groups of the codimension are listed");
  }
}
LFS_CASE(names_v2) { names(2); }
LFS_CASE(names_v4) { names(4); }
