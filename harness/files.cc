// F01: the file utilities (bricks/file/file.h) against a model of the tree of files, and F02: the self-modifying config.
#include "common.h"
#include "/repo/blocks/self_modifying_config/config.h"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

using FS = current::FileSystem;

namespace {

// ---------------------------------------------------------------------------------------------------------------------
// The model.
// ---------------------------------------------------------------------------------------------------------------------
enum Kind { kNone, kFile, kDir, kLink };
struct Node {
  Kind kind = kNone;
  std::string data;  // The contents of a file, the target of a link.
  bool operator==(const Node& r) const { return kind == r.kind && data == r.data; }
};
using Tree = std::map<std::string, Node>;  // By the path from the run directory.

struct FaultsPaused {
  sim::Knobs saved;
  FaultsPaused() : saved(sim::K()) { sim::K() = sim::Knobs(); }
  ~FaultsPaused() { const int64_t left = saved.disk_capacity; sim::K() = saved; sim::K().disk_capacity = left; }
};

std::string Slurp(const std::string& path) {
  FILE* f = fopen(path.c_str(), "rb");
  if (!f) return "<unreadable>";
  std::string s;
  char b[4096];
  while (size_t n = fread(b, 1, sizeof(b), f)) s.append(b, n);
  fclose(f);
  return s;
}
void Spit(const std::string& path, const std::string& s) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) sim::Fail("harness-limit", "cannot write %s", path.c_str());
  fclose(f);
}
void ObserveInto(Tree& t, const std::string& dir) {
  DIR* d = opendir(dir.c_str());
  if (!d) sim::Fail("harness-limit", "cannot list %s", dir.c_str());
  std::vector<std::string> names;
  while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
  closedir(d);
  for (const std::string& name : names) {
    const std::string path = dir + "/" + name;
    struct stat st;
    if (lstat(path.c_str(), &st)) continue;  // Gone meanwhile, only when somebody else changes the tree.
    Node& n = t[path];
    if (S_ISDIR(st.st_mode)) {
      n.kind = kDir;
      ObserveInto(t, path);
    } else if (S_ISLNK(st.st_mode)) {
      n.kind = kLink;
      char b[4096];
      const ssize_t k = readlink(path.c_str(), b, sizeof(b));
      n.data = std::string(b, k > 0 ? k : 0);
    } else {
      n.kind = kFile;
      n.data = Slurp(path);
    }
  }
}
Tree Observe(const std::string& dir) {
  sim::Atomic atomic;
  FaultsPaused paused;
  Tree t;
  ObserveInto(t, dir);
  return t;
}

std::string Parent(const std::string& p) { return p.substr(0, p.rfind('/')); }
std::string Base(const std::string& p) { return p.substr(p.rfind('/') + 1); }
bool Under(const std::string& p, const std::string& dir) { return p.compare(0, dir.size() + 1, dir + "/") == 0; }
std::string Cwd() { char b[4096]; return getcwd(b, sizeof(b)) ? b : ""; }

// What an operation did: the name of the exception, or nothing.
template <typename F>
std::string Outcome(F f) {
  try {
    f();
  } catch (const current::CannotReadFileException&) {
    return "CannotReadFile";
  } catch (const current::MkDirException&) {
    return "MkDir";
  } catch (const current::DirDoesNotExistException&) {
    return "DirDoesNotExist";
  } catch (const current::PathNotDirException&) {
    return "PathNotDir";
  } catch (const current::DirNotEmptyException&) {
    return "DirNotEmpty";
  } catch (const current::FileException&) {
    return "File";
  } catch (const std::exception& e) {
    return std::string("another exception: ") + e.what();
  }
  return "";
}

struct World {
  std::string root;      // The directory this thread works in.
  std::string outside;   // Another directory, which is to stay as it is.
  Tree tree;             // Of `root`, itself excluded.
  Tree outside_tree;
  bool faults = false;
  bool short_only = false;
  uint64_t errors_before = 0;

  Kind KindOf(const std::string& p) const {
    if (p == root) return kDir;
    const auto it = tree.find(p);
    return it == tree.end() ? kNone : it->second.kind;
  }
  // Where the path leads, links followed: the path in the model, or in the outside.  Empty if this is a circle.
  std::string Resolve(std::string p) const {
    for (int i = 0; i < 30; ++i) {
      const auto it = tree.find(p);
      if (it == tree.end() || it->second.kind != kLink) return p;
      p = it->second.data.substr(Cwd().size() + 1);
    }
    return "";
  }
  Node Followed(const std::string& p) const {
    const std::string q = Resolve(p);
    if (q == root || q == outside) return Node{kDir, ""};
    auto it = tree.find(q);
    if (it != tree.end()) return it->second;
    it = outside_tree.find(q);
    return it != outside_tree.end() ? it->second : Node();
  }
  std::vector<std::string> Children(const std::string& dir) const {
    std::vector<std::string> r;
    for (const Tree* t : {&tree, &outside_tree}) for (const auto& e : *t) if (Parent(e.first) == dir) r.push_back(Base(e.first));
    return r;
  }
  std::vector<std::string> Dirs() const {
    std::vector<std::string> r{root};
    for (const auto& e : tree) if (e.second.kind == kDir) r.push_back(e.first);
    return r;
  }
  std::string AnyPath() const {
    static const char* const names[] = {"a", "b", "c d", ".h", "...", "x.y.z", "..b"};
    const auto dirs = Dirs();
    std::string p = dirs[sim::W(dirs.size())];
    if (std::count(p.begin(), p.end(), '/') >= 4) p = root;
    return p + "/" + names[sim::W(7)];
  }
  bool Erred() const { return sim::InjectedDiskErrors() != errors_before; }

  std::string Diff(const Tree& a) const {
    for (const auto& e : tree) {
      const auto it = a.find(e.first);
      if (it == a.end()) return "'" + e.first + "' is gone";
      if (it->second.kind != e.second.kind) return "'" + e.first + "' is of another kind";
      if (!(it->second == e.second)) {
        return "'" + e.first + "' is of " + std::to_string(it->second.data.size()) + " bytes, it is to be of " + std::to_string(e.second.data.size());
      }
    }
    for (const auto& e : a) if (!tree.count(e.first)) return "'" + e.first + "' is there";
    return "";
  }
  void CheckSame(const char* op, const std::string& what) {
    const Tree now = Observe(root);
    SIM_CHECK(now == tree, "wrong-files", "after %s '%s': %s", op, what.c_str(), Diff(now).c_str());
    CheckOutside(op, what);
  }
  void CheckOutside(const char* op, const std::string& what) {
    SIM_CHECK(Observe(outside) == outside_tree, "outside-changed", "%s '%s' has changed the files of another directory", op, what.c_str());
  }
  // The operation must have ended the way it is to, unless an injected error made it fail.  True if it has succeeded.
  bool Settle(const char* op, const std::string& what, const std::string& outcome, const std::string& expected) {
    sim::Log("%s %s: %s", op, what.c_str(), outcome.empty() ? "ok" : outcome.c_str());
    sim::Count(op);
    if (outcome.compare(0, 7, "another") == 0) sim::Fail("wrong-exception", "%s '%s': %s", op, what.c_str(), outcome.c_str());
    if (Erred() && !outcome.empty()) { sim::Count("operations failed by a fault"); return false; }
    SIM_CHECK(outcome == expected, "wrong-outcome", "%s '%s': '%s' where it is to be '%s'%s", op, what.c_str(), outcome.c_str(), expected.c_str(),
              Erred() ? ", and there was a disk error" : "");
    return true;
  }
  void Begin() { errors_before = sim::InjectedDiskErrors(); }
};

std::string Contents() {
  switch (sim::W(6)) {
    case 0: return h::Payload(sim::W(100), sim::W(40));
    case 1: return "";
    case 2: return "\n";
    case 3: return sim::WBytes(30);
    case 4: return "one\ntwo\n\nfour" + std::string(sim::W(2), '\n');
    default: return h::Payload(sim::W(100), 1 + sim::W(20000));
  }
}

void OpWrite(World& w) {
  const std::string p = w.AnyPath(), s = Contents();
  const bool append = sim::WB();
  if (w.KindOf(p) == kLink) return;
  const Node before = w.Followed(p);
  w.Begin();
  const std::string o = Outcome([&]() { FS::WriteStringToFile(s, p.c_str(), append); });
  if (w.Settle(append ? "append" : "write", p, o, before.kind == kDir ? "File" : "")) {
    if (o.empty()) w.tree[p] = Node{kFile, append ? before.data + s : s};
  } else {
    // Cut short: what was there and a part of the new contents, or nothing at all was done.
    const Tree now = Observe(w.root);
    const auto it = now.find(p);
    if (it == now.end()) {
      SIM_CHECK(before.kind == kNone, "wrong-files", "a failed write removed '%s'", p.c_str());
    } else if (it->second.kind == kFile && before.kind != kDir) {
      const std::string whole = append ? before.data + s : s;
      const std::string& d = it->second.data;
      const bool prefix = d.size() <= whole.size() && whole.compare(0, d.size(), d) == 0 && (!append || d.size() >= before.data.size());
      SIM_CHECK(prefix || (before.kind == kFile && d == before.data), "wrong-files", "a failed write left '%s' with what it is not to contain", p.c_str());
      w.tree[p] = it->second;
    }
  }
  w.CheckSame(append ? "append" : "write", p);
}

void OpRead(World& w) {
  const std::string p = w.AnyPath();
  const Node n = w.Followed(p);
  w.Begin();
  if (sim::WB()) {
    std::string got;
    const std::string o = Outcome([&]() { got = FS::ReadFileAsString(p); });
    if (w.Settle("read", p, o, n.kind == kFile ? "" : "CannotReadFile") && o.empty()) {
      SIM_CHECK(got == n.data, "wrong-contents", "'%s' reads as %zu bytes, it has %zu", p.c_str(), got.size(), n.data.size());
    }
  } else {
    std::vector<std::string> got, expected;
    for (size_t i = 0; i < n.data.size();) {
      const size_t e = n.data.find('\n', i);
      expected.push_back(n.data.substr(i, e == std::string::npos ? e : e - i));
      if (e == std::string::npos) break;
      i = e + 1;
    }
    const std::string o = Outcome([&]() { FS::ReadFileByLines(p, [&](std::string&& s) { got.push_back(std::move(s)); }); });
    if (w.Settle("read by lines", p, o, n.kind == kFile ? "" : "CannotReadFile") && o.empty()) {
      SIM_CHECK(got == expected, "wrong-contents", "'%s' reads as %zu lines, it has %zu", p.c_str(), got.size(), expected.size());
    }
  }
}

void OpStat(World& w) {
  const std::string p = sim::WB(0.2) ? w.root : w.AnyPath();
  const Node n = w.Followed(p);
  w.Begin();
  if (sim::WB()) {
    bool dir = false;
    if (w.Settle("is dir", p, Outcome([&]() { dir = FS::IsDir(p); }), n.kind == kNone ? "File" : "") && n.kind != kNone) {
      SIM_CHECK(dir == (n.kind == kDir), "wrong-contents", "IsDir('%s') is %d", p.c_str(), int(dir));
    }
  } else {
    uint64_t size = 0;
    if (w.Settle("size", p, Outcome([&]() { size = FS::GetFileSize(p); }), n.kind == kFile ? "" : "File") && n.kind == kFile) {
      SIM_CHECK(size == n.data.size(), "wrong-contents", "GetFileSize('%s') is %zu, it is to be %zu", p.c_str(), size_t(size), n.data.size());
    }
  }
}

void OpMkDir(World& w) {
  const std::string p = w.AnyPath();
  const bool silent = sim::WB(0.3), exists = w.KindOf(p) != kNone;
  w.Begin();
  const std::string o = Outcome([&]() { FS::MkDir(p, silent ? FS::MkDirParameters::Silent : FS::MkDirParameters::ThrowExceptionOnError); });
  if (w.Settle("mkdir", p, o, exists && !silent ? "MkDir" : "") && !exists && !(silent && w.Erred())) w.tree[p] = Node{kDir, ""};
  w.CheckSame("mkdir", p);
}

void OpLink(World& w) {  // Done by the harness, there is no such operation.
  const std::string p = w.AnyPath();
  if (w.KindOf(p) != kNone) return;
  std::string target = sim::WB() ? w.outside : w.AnyPath();
  if (target != w.outside && (target == p || w.KindOf(target) != kFile)) return;
  target = Cwd() + "/" + target;
  if (symlink(target.c_str(), p.c_str())) sim::Fail("harness-limit", "symlink");
  w.tree[p] = Node{kLink, target};
  sim::Count("links made");
}

void OpRename(World& w) {
  const std::string a = w.AnyPath(), b = w.AnyPath();
  const Kind ka = w.KindOf(a), kb = w.KindOf(b);
  std::string expected;
  if (ka == kNone || Under(b, a) || Under(a, b) || (ka == kDir && (kb == kFile || kb == kLink)) || (ka != kDir && kb == kDir) ||
      (a != b && ka == kDir && kb == kDir && !w.Children(b).empty())) {
    expected = "File";
  }
  w.Begin();
  const std::string o = Outcome([&]() { FS::RenameFile(a, b); });
  if (w.Settle("rename", a + "' -> '" + b, o, expected) && o.empty() && a != b) {
    Tree t;
    for (const auto& e : w.tree) {
      if (e.first == b || Under(e.first, b)) continue;
      t[e.first == a ? b : Under(e.first, a) ? b + e.first.substr(a.size()) : e.first] = e.second;
    }
    w.tree = t;
  }
  w.CheckSame("rename", a);
}

void OpRemove(World& w) {
  const std::string p = w.AnyPath();
  const Kind k = w.KindOf(p);
  const bool silent = sim::WB(0.3);
  const int how = static_cast<int>(sim::W(3));  // A file, a directory, the scoped remover.
  const bool full = k == kDir && !w.Children(p).empty();
  const bool will = how == 1 ? k == kDir && !full : k != kNone && !full;
  std::string expected;
  if (!will && !silent) {
    if (how == 0) expected = "File";
    if (how == 1) expected = k == kNone ? "DirDoesNotExist" : k == kDir ? "DirNotEmpty" : "File";
  }
  w.Begin();
  const std::string o = Outcome([&]() {
    if (how == 0) FS::RmFile(p, silent ? FS::RmFileParameters::Silent : FS::RmFileParameters::ThrowExceptionOnError);
    if (how == 1) FS::RmDir(p, silent ? FS::RmDirParameters::Silent : FS::RmDirParameters::ThrowExceptionOnError);
    if (how == 2) {
      const bool now = sim::WB();
      const FS::ScopedRmFile remover(p, now);
      if (now && will && !w.Erred()) SIM_CHECK(!Observe(w.root).count(p), "wrong-files", "ScopedRmFile has not removed '%s'", p.c_str());
    }
  });
  static const char* const names[] = {"remove a file", "remove a directory", "scoped removal"};
  if (w.Settle(names[how], p, o, expected) && o.empty() && will) {
    if (w.Erred()) {  // Silently failed, perhaps.
      if (!Observe(w.root).count(p)) w.tree.erase(p);
    } else {
      w.tree.erase(p);
    }
  }
  w.CheckSame(names[how], p);
}

void OpRemoveTree(World& w) {
  const std::string p = w.AnyPath();
  const Kind k = w.KindOf(p);
  if (k == kLink) return;
  const bool silent = sim::WB(0.3), scoped = sim::WB(0.3);
  w.Begin();
  const std::string o = Outcome([&]() {
    if (scoped) {
      const FS::ScopedRmDir remover(p, sim::WB());
    } else {
      FS::RmDir(p, silent ? FS::RmDirParameters::Silent : FS::RmDirParameters::ThrowExceptionOnError, FS::RmDirRecursive::Yes);
    }
  });
  const std::string expected = silent || scoped ? "" : k == kNone ? "DirDoesNotExist" : k == kFile ? "PathNotDir" : "";
  const bool done = w.Settle("remove a tree", p, o, expected);
  if (k == kDir) {
    if (!w.Erred()) {
      for (auto it = w.tree.begin(); it != w.tree.end();) it = it->first == p || Under(it->first, p) ? w.tree.erase(it) : std::next(it);
    } else {
      // A part of it may be left, intact.
      const Tree now = Observe(w.root);
      SIM_CHECK(!done || silent || scoped || !now.count(p), "wrong-files", "the tree '%s' is reported removed, and it is there", p.c_str());
      for (auto it = w.tree.begin(); it != w.tree.end();) {
        it = (it->first == p || Under(it->first, p)) && !now.count(it->first) ? w.tree.erase(it) : std::next(it);
      }
    }
  }
  w.CheckSame("remove a tree", p);
}

struct Item { std::string dirname, basename, pathname; bool dir; std::vector<std::string> components; };
// Must neither be copied, nor be called after it has returned `false`.
struct Scanner {
  std::vector<Item> items;
  size_t limit;
  bool over = false;
  explicit Scanner(size_t limit) : limit(limit) {}
  Scanner(const Scanner&) = delete;
  bool operator()(const FS::ScanDirItemInfo& i) {
    SIM_CHECK(!over, "wrong-scan", "the scan went on, to '%s', after it was told to stop", i.pathname.c_str());
    items.push_back(Item{i.dirname, i.basename, i.pathname, i.is_directory, i.path_components_cref});
    over = items.size() == limit;
    return !over;
  }
};
struct Expected { bool dir; std::vector<std::string> components; };
// `real` is where the directory is, when it is reached through a symbolic link.
void Expect(const World& w, const std::string& dir, const std::string& real, const std::vector<std::string>& components, int parameters, bool recursive,
            std::map<std::string, Expected>& r) {
  for (const std::string& name : w.Children(real)) {
    const std::string p = dir + "/" + name;
    const bool is_dir = w.Followed(real + "/" + name).kind == kDir;
    if (parameters & (is_dir ? 2 : 1)) r[p] = Expected{is_dir, components};
    if (is_dir && recursive) {
      auto c = components;
      c.push_back(name);
      Expect(w, p, w.Resolve(real + "/" + name), c, parameters, true, r);
    }
  }
}

void OpScan(World& w) {
  const std::string p = sim::WB(0.5) ? w.root : w.AnyPath();
  const Node n = w.Followed(p);
  const int parameters = 1 + static_cast<int>(sim::W(3));
  bool recursive = sim::WB();
  const bool until = sim::WB();
  // The links to directories are followed, and thus are not to lead back in here.
  for (const auto& e : w.tree) if (e.second.kind == kLink && w.Resolve(e.first) != w.outside && w.Followed(e.first).kind == kDir) recursive = false;
  std::map<std::string, Expected> expected;
  if (n.kind == kDir) Expect(w, p, w.Resolve(p), {}, parameters, recursive, expected);
  Scanner s(until ? 1 + sim::W(4) : 1000000);
  const auto par = static_cast<FS::ScanDirParameters>(parameters);
  const auto rec = recursive ? FS::ScanDirRecursive::Yes : FS::ScanDirRecursive::No;
  w.Begin();
  std::string o = Outcome([&]() { if (until) FS::ScanDirUntil(p, s, par, rec); else FS::ScanDir(p, s, par, rec); });
  // A link which leads nowhere, or through what is not a directory, or round in a circle.
  if (w.KindOf(p) == kLink && n.kind == kNone && (o == "PathNotDir" || o == "File")) o = "DirDoesNotExist";
  const bool done = w.Settle("scan", p, o, n.kind == kNone ? "DirDoesNotExist" : n.kind == kDir ? "" : "PathNotDir");
  std::set<std::string> seen;
  for (const Item& i : s.items) {
    const auto it = expected.find(i.pathname);
    SIM_CHECK(it != expected.end(), "wrong-scan", "the scan of '%s' gave '%s'", p.c_str(), i.pathname.c_str());
    SIM_CHECK(seen.insert(i.pathname).second, "wrong-scan", "the scan of '%s' gave '%s' twice", p.c_str(), i.pathname.c_str());
    SIM_CHECK(i.dir == it->second.dir && i.basename == Base(i.pathname) && i.dirname == Parent(i.pathname) && i.components == it->second.components,
              "wrong-scan", "the scan of '%s' gave '%s' with wrong details", p.c_str(), i.pathname.c_str());
    if ((parameters & 2) && i.dirname != p) SIM_CHECK(seen.count(i.dirname), "wrong-scan", "'%s' came before its directory", i.pathname.c_str());
  }
  if (done && o.empty()) {
    SIM_CHECK(seen.size() == std::min(s.limit, expected.size()), "wrong-scan", "the scan of '%s' gave %zu items out of %zu%s", p.c_str(), seen.size(), expected.size(),
              until ? ", the limited one" : "");
  }
  w.CheckSame("scan", p);
}

void OpJoin() {
  static const char* const parts[] = {"", "a", "/", "a/", "/a", "a/b", "//"};
  const std::string a = parts[sim::W(7)], b = parts[sim::W(7)];
  std::string got, expected = a.empty() || (!b.empty() && b[0] == '/') ? b : a.back() == '/' ? a + b : a + "/" + b;
  const std::string o = Outcome([&]() { got = FS::JoinPath(a, b); });
  SIM_CHECK(o == (b.empty() ? "File" : ""), "wrong-outcome", "JoinPath('%s', '%s'): '%s'", a.c_str(), b.c_str(), o.c_str());
  if (!b.empty()) SIM_CHECK(got == expected, "wrong-contents", "JoinPath('%s', '%s') is '%s'", a.c_str(), b.c_str(), got.c_str());
}

void Prepare(World& w, int i) {
  w.root = sim::RunDir() + "/t" + std::to_string(i);
  w.outside = sim::RunDir() + "/o" + std::to_string(i);
  mkdir(w.root.c_str(), 0755);
  mkdir(w.outside.c_str(), 0755);
  mkdir((w.outside + "/sub").c_str(), 0755);
  Spit(w.outside + "/keep", "keep this");
  Spit(w.outside + "/sub/keep", "and this");
  w.outside_tree = Observe(w.outside);
}

void Work(World& w, int ops) {
  while (ops--) {
    switch (sim::W(15)) {
      case 0: case 1: case 2: OpWrite(w); break;
      case 3: case 4: OpRead(w); break;
      case 5: OpStat(w); break;
      case 6: case 7: OpMkDir(w); break;
      case 8: OpLink(w); break;
      case 9: OpRename(w); break;
      case 10: OpRemove(w); break;
      case 11: OpRemoveTree(w); break;
      case 12: case 13: OpScan(w); break;
      default: OpJoin();
    }
  }
}

void DiskFaults(bool errors) {
  auto& k = sim::K();
  if (sim::CB()) k.disk_short_write = 0.3;
  if (sim::CB()) k.disk_eintr = 0.2;
  if (sim::CB()) k.disk_short_read = 0.3;
  if (!errors) return;
  if (sim::CB()) { if (sim::CB()) k.disk_enospc = 0.1; else k.disk_eio = 0.1; }
  if (sim::CB(0.3)) k.disk_capacity = sim::C(5000);
  if (sim::CB()) k.disk_read_eio = 0.05;
  if (sim::CB()) k.disk_open_fail = 0.05;
  if (sim::CB()) k.disk_meta_fail = 0.1;
}

}  // namespace

SIM_SCENARIO("F01", files, 2) {
  World w;
  Prepare(w, 0);
  DiskFaults(false);
  Work(w, 5 + static_cast<int>(sim::W(40)));
  sim::EndRun();
}
SIM_SCENARIO("F01", files_faults, 2) {
  World w;
  Prepare(w, 0);
  DiskFaults(true);
  Work(w, 5 + static_cast<int>(sim::W(40)));
  sim::FaultsOff();
  Work(w, 5);
  sim::EndRun();
}
// Several threads, each with a directory of its own.
SIM_SCENARIO("F01", files_threads, 1) {
  h::Chaos();
  World w[3];
  const int n = 2 + static_cast<int>(sim::W(2));
  for (int i = 0; i < n; ++i) Prepare(w[i], i);
  h::Threads t;
  for (int i = 0; i < n; ++i) t.Go([&, i]() { Work(w[i], 3 + static_cast<int>(sim::W(10))); });
  t.Join();
  sim::EndRun();
}
// The directory changes as it is listed: what is there all along is listed, exactly once.
SIM_SCENARIO("F01", churn, 1) {
  h::Chaos();
  World w;
  Prepare(w, 0);
  std::set<std::string> stable;
  for (uint64_t i = 0, n = 1 + sim::W(5); i < n; ++i) {
    const std::string p = w.root + "/s" + std::to_string(i);
    if (sim::WB(0.3)) {
      mkdir(p.c_str(), 0755);
      Spit(p + "/inner", "inner");
      stable.insert(p + "/inner");
    } else {
      Spit(p, "stable");
    }
    stable.insert(p);
  }
  std::atomic_bool over{false};
  h::Threads t;
  t.Go([&]() {
    for (int i = 3 + static_cast<int>(sim::W(20)); i--;) {
      const std::string p = w.root + "/c" + std::to_string(sim::W(3));
      switch (sim::W(3)) {
        case 0: FS::WriteStringToFile("churn", p.c_str()); break;
        case 1: FS::RmFile(p, FS::RmFileParameters::Silent); break;
        default: Outcome([&]() { FS::RenameFile(p, w.root + "/c" + std::to_string(sim::W(3))); });
      }
    }
    over = true;
  });
  t.Go([&]() {
    do {
      const bool recursive = sim::WB();
      std::map<std::string, int> seen;
      const std::string o = Outcome([&]() {
        FS::ScanDir(w.root, [&](const FS::ScanDirItemInfo& i) { ++seen[i.pathname]; }, FS::ScanDirParameters::ListFilesAndDirs,
                    recursive ? FS::ScanDirRecursive::Yes : FS::ScanDirRecursive::No);
      });
      SIM_CHECK(o.empty(), "wrong-outcome", "the listing of a directory which changes meanwhile: '%s'", o.c_str());
      for (const std::string& p : stable) {
        const int n = recursive || Parent(p) == w.root ? 1 : 0;
        SIM_CHECK(seen[p] == n, "wrong-scan", "'%s', there all along, is listed %d times", p.c_str(), seen[p]);
      }
      for (const auto& e : seen) {
        SIM_CHECK(stable.count(e.first) || Base(e.first)[0] == 'c', "wrong-scan", "'%s' is listed, and it was never there", e.first.c_str());
      }
      sim::Count("listings under changes");
    } while (!over);
  });
  t.Join();
  sim::EndRun();
}

// ---------------------------------------------------------------------------------------------------------------------
// F02.
// ---------------------------------------------------------------------------------------------------------------------
CURRENT_STRUCT(SimConfig) {
  CURRENT_FIELD(id, uint64_t, 0);
  CURRENT_FIELD(text, std::string);
  CURRENT_FIELD(sum, uint64_t, 0);
};

namespace {
SimConfig MakeConfig(uint64_t id, size_t len) {
  SimConfig c;
  c.id = id;
  c.text = h::Payload(id, len);
  c.sum = id * 1000003 + len;
  return c;
}
uint64_t Verify(const SimConfig& c, const char* where) {
  SIM_CHECK(c.text == h::Payload(c.id, c.text.size()) && c.sum == c.id * 1000003 + c.text.size(), "corrupt-config", "%s: the config %d is not what was saved", where,
            int(c.id));
  return c.id;
}
uint64_t OnDisk(const std::string& path, const char* when) {
  FaultsPaused paused;
  try {
    return Verify(ParseJSON<SimConfig>(Slurp(path)), when);
  } catch (const current::Exception& e) {
    sim::Fail("config-lost", "%s, the config file of %zu bytes can not be parsed", when, Slurp(path).size());
  }
  return 0;
}
size_t SomeLength() { return sim::WB() ? sim::W(50) : sim::W(30000); }

// The notebook: "try <id>", "ok <id>", "no <id>" (the update has thrown), "hist <path> <id>", "edit <id>".
void ConfigLife(bool crashes, bool errors) {
  using config_t = current::SelfModifyingConfig<SimConfig>;
  const std::string path = sim::RunDir() + "/config";
  std::set<uint64_t> allowed;
  uint64_t next = 1;
  std::map<std::string, uint64_t> historical;
  if (!sim::Phase()) {
    Spit(path, JSON(MakeConfig(0, SomeLength())));
    sim::HistoryAppend("ok 0");
  }
  for (const std::string& r : sim::History()) {
    const char op = r[0];
    if (op == 'h') {
      const size_t at = r.rfind(' ');
      historical[r.substr(5, at - 5)] = std::stoull(r.substr(at + 1));
      continue;
    }
    const uint64_t id = std::stoull(r.substr(r.find(' ') + 1));
    next = std::max(next, id + 1);
    if (op == 't') allowed.insert(id);
    if (op == 'o') allowed = {id};
    if (op == 'n') allowed.erase(id);
  }
  for (const auto& e : historical) {
    SIM_CHECK(OnDisk(e.first, "after a restart, the previous config") == e.second, "history-lost", "'%s' is to hold the config %d", e.first.c_str(), int(e.second));
  }
  uint64_t current_id = OnDisk(path, sim::Phase() ? "after a crash" : "at the start");
  SIM_CHECK(allowed.count(current_id), "config-lost", "after a crash in life %d, the config is %d, the last one which was saved is %d", sim::Phase(), int(current_id),
            int(*allowed.rbegin()));
  if (sim::Phase()) sim::Count("restarts checked");
  sim::HistoryAppend("ok " + std::to_string(current_id));
  DiskFaults(errors);
  if (crashes && !sim::FinalPhase()) sim::K().crash_at_write = 0.03 + 0.1 * sim::CB();
  sim::SleepUs(1100000);  // The historical files are by the second.
  std::unique_ptr<config_t> config;
  const auto Start = [&]() {
    for (int attempt = 0;; ++attempt) {
      if (attempt == 5) sim::FaultsOff();
      const uint64_t errors_before = sim::InjectedDiskErrors();
      std::string o;
      try {
        config = std::make_unique<config_t>(path);
      } catch (const current::SelfModifyingConfigException& e) {
        o = e.what();
      }
      const bool erred = sim::InjectedDiskErrors() != errors_before;
      SIM_CHECK(o.empty() || erred, "wrong-exception", "the config does not start: %s", o.c_str());
      SIM_CHECK(OnDisk(path, "after a start") == current_id, "config-lost", "the start has changed the config");
      sim::SleepUs(1100000);
      if (o.empty()) break;
      sim::Count("failed starts");
    }
    SIM_CHECK(Verify(config->Config(), "after a start") == current_id, "wrong-config", "the config is %d, the file has %d", int(config->Config().id), int(current_id));
  };
  Start();
  for (int n = 1 + static_cast<int>(sim::W(6)); n--;) {
    const uint64_t errors_before = sim::InjectedDiskErrors();
    switch (sim::W(5)) {
      case 0: {  // Another life, without a crash.
        config = nullptr;
        Start();
        break;
      }
      case 1: {  // Edited by hand.
        const int how = crashes ? 0 : static_cast<int>(sim::W(3));
        const std::string good = JSON(MakeConfig(current_id, config->Config().text.size()));
        std::string o;
        if (how) {
          FaultsPaused paused;
          if (how == 1) Spit(path, sim::WB() ? good.substr(0, sim::W(good.size())) : "not a config");
          if (how == 2) unlink(path.c_str());
        }
        try {
          config->Reload();
        } catch (const current::SelfModifyingConfigException& e) {
          o = "refused";
        }
        const bool erred = sim::InjectedDiskErrors() != errors_before;
        SIM_CHECK(erred || o.empty() == !how, "wrong-exception", "Reload() of a config which %s: %s", !how ? "is good" : how == 1 ? "does not parse" : "is not there",
                  o.c_str());
        SIM_CHECK(Verify(config->Config(), "after a Reload()") == current_id, "wrong-config", "a failed Reload() has changed the config");
        if (how) { FaultsPaused paused; Spit(path, good); }
        sim::Count("reloads");
        break;
      }
      default: {
        const uint64_t id = next++;
        const SimConfig c = MakeConfig(id, SomeLength());
        sim::HistoryAppend("try " + std::to_string(id));
        std::string o;
        const auto now = current::time::Now();
        try {
          if (sim::WB()) config->Update(c); else config->Update(c, now);
        } catch (const current::SelfModifyingConfigException& e) {
          o = e.what();
        } catch (const std::exception& e) {
          sim::Fail("wrong-exception", "Update(): %s", e.what());
        }
        const bool erred = sim::InjectedDiskErrors() != errors_before;
        sim::Log("update to %d: %s", int(id), o.empty() ? "ok" : "failed");
        SIM_CHECK(o.empty() || erred, "wrong-exception", "Update() has failed: %s", o.c_str());
        if (o.empty()) {
          const std::string historical_file = config_t::HistoricalFilename(path, now);
          SIM_CHECK(OnDisk(path, "after an update") == id, "config-lost", "the update to %d is acknowledged, and it is not in the file", int(id));
          SIM_CHECK(OnDisk(historical_file, "after an update, the previous config") == current_id, "history-lost", "the config %d is not preserved", int(current_id));
          sim::HistoryAppend("hist " + historical_file + " " + std::to_string(current_id));
          sim::HistoryAppend("ok " + std::to_string(id));
          current_id = id;
          sim::Count("updates");
        } else {
          SIM_CHECK(OnDisk(path, "after a failed update") == current_id, "config-lost", "a failed update has changed the file");
          sim::HistoryAppend("no " + std::to_string(id));
          sim::Count("failed updates");
        }
        SIM_CHECK(Verify(config->Config(), "after an update") == current_id, "wrong-config", "after an update which %s, the config is %d, and the file has %d",
                  o.empty() ? "succeeded" : "failed", int(config->Config().id), int(current_id));
        sim::SleepUs(1100000);
      }
    }
  }
  sim::EndRun();
}
}  // namespace

SIM_SCENARIO("F02", config, 1) { ConfigLife(false, false); }
SIM_SCENARIO("F02", config_errors, 1) { ConfigLife(false, true); }
SIM_SCENARIO("F02", config_crashes, 2, 4) { ConfigLife(true, sim::CB(0.3)); }
