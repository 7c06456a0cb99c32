// C16: virtual file system against a map model
#include "pbt.hpp"
#include "fakeclock.hpp"
#include <extra/vfs/vfs.hpp>
#include <filesystem>
using namespace pbt; using namespace Lambda;
struct F { std::string data; long created, modified; bool created_known = true; };
typedef std::map<std::string, F> Model;
static std::string lower(std::string t) { for (auto& c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static std::string name(Src& s, const Model& m) {
	if (m.size() && s.chance(1, 2)) { auto it = m.begin(); std::advance(it, s.below(m.size())); auto n = it->first; for (auto& c : n) if (c >= 'a' && c <= 'z' && s.chance(1, 3)) c -= 32; return n; }
	switch (s.weighted({ 4, 2, 1 })) { case 0: return s.pick({ "a", "B", "dir/file.txt", "Dir/File.txt", "index.html", "A" }); case 1: return s.str("abAB/._ \xc3\xa9\xc3\x89", 1 + s.below(8)); default: return s.bytestr(s.len(150)); }
}
static void compare(Case& c, VirtualFilesystem& v, const Model& m, const std::vector<std::string>& used) {
	auto list = v.listAll(); c.checkf(list.size() == m.size(), [&] { return "listing has " + std::to_string(list.size()) + " files, expected " + std::to_string(m.size()); });
	std::set<std::string> seen; size_t total = 0;
	auto info = [&](const VFS::VirtualFileInfo& i, const std::string& n, const char* w) {
		auto& f = m.at(n); c.checkf(i.size == f.data.size(), [&] { return std::string(w) + ": size of " + show(n) + " is " + std::to_string(i.size) + ", expected " + std::to_string(f.data.size()); });
		c.checkf(i.modified == f.modified, [&] { return std::string(w) + ": modification time of " + show(n) + " is " + std::to_string(i.modified) + ", expected " + std::to_string(f.modified); });
		if (f.created_known) c.checkf(i.created == f.created, [&] { return std::string(w) + ": creation time of " + show(n) + " is " + std::to_string(i.created) + ", expected " + std::to_string(f.created); });
	};
	for (auto& e : list) { c.checkf(m.count(e.name) && seen.insert(e.name).second, [&] { return "listing contains unexpected " + show(e.name); }); info(e, e.name, "listing"); }
	for (auto& f : m) total += f.first.size() + f.second.data.size();
	auto st = v.stats(); c.checkf(st.totalFiles == m.size(), [&] { return "total files " + std::to_string(st.totalFiles) + ", expected " + std::to_string(m.size()); }); c.checkf(st.totalSize == total, [&] { return "total size " + std::to_string(st.totalSize) + ", expected " + std::to_string(total); });
	for (auto& n : used) {
		auto it = m.find(lower(n)); auto r = v.read(n); auto i = v.fileInfo(n);
		c.checkf(r.has_value() == (it != m.end()) && i.has_value() == r.has_value(), [&] { return show(n) + (it == m.end() ? " should not exist" : " should exist"); }); if (it == m.end()) continue;
		c.checkf(r->text() == it->second.data && r->size() == it->second.data.size() && r->buffer.size() == r->size(), [&] { return "contents of " + show(n) + " are " + show(r->text()) + ", expected " + show(it->second.data); });
		c.check(i->name == it->first && r->name == it->first, "file name reported wrongly"); info(*i, it->first, "info"); c.check(r->modified == it->second.modified && (!it->second.created_known || r->created == it->second.created), "read reports other times");
	}
}
static std::string dir() { static std::string d = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/vfs" + std::to_string(getpid()); mkdir(d.c_str(), 0700); return d; }
static void history(Src& s, Case& c) {
	VirtualFilesystem v; Model m, snap; std::vector<std::string> used; long now = 1000000; bool moved = false, over = false, have = false; auto file = dir() + "/s.tar";
	size_t ops = 1 + s.count(25);
	for (size_t i = 0; i < ops; i++) {
		now += s.below(3) * s.below(5); fake_now = now; auto n = name(s, m); used.push_back(n); if (used.size() > 10) used.erase(used.begin());
		switch (s.weighted({ 8, 3, 5, 1 })) {
			case 0: { auto d = s.bytestr(s.len(s.chance(1, 10) ? 100000 : 60)); c.note("t=" + std::to_string(now) + " write " + show(n) + " " + show(d, 40)); if (s.flip()) v.write(n, d); else v.write(n, std::vector<uint8_t>(d.begin(), d.end())); auto& f = m[lower(n)]; over |= f.modified != 0; if (!f.modified) f.created = now; f.data = d; f.modified = now; } break;
			case 1: c.note("remove " + show(n)); v.remove(n); m.erase(lower(n)); break;
			case 2: {
				auto t = name(s, m); used.push_back(t); c.note("move " + show(n) + " to " + show(t)); bool threw = false; try { v.move(n, t); } catch (const std::exception&) { threw = true; }
				auto it = m.find(lower(n)); c.checkf(threw == (it == m.end()), [&] { return std::string(threw ? "move of an existing file failed" : "move of a missing file did not fail"); });
				if (it != m.end()) { auto f = it->second; if (m.count(lower(t)) && lower(t) != lower(n)) c.label("move onto existing"); if (lower(t) == lower(n)) c.label("self-move"); m.erase(it); m[lower(t)] = f; moved = true; }
			} break;
			default:
				if (!have || s.flip()) { bool ok = true; for (auto& f : m) ok &= f.first.size() && f.first.find('\0') == std::string::npos; if (!ok || m.size() > 6) break; c.note("save snapshot"); v.saveSnapshot(file); snap = m; have = true; }
				else { c.note("load snapshot"); v.loadSnapshot(file); for (auto& f : snap) { m[f.first] = f.second; m[f.first].created_known = false; } c.label("snapshot loaded"); }
				break;
		}
		compare(c, v, m, used);
	}
	unlink(file.c_str()); c.nontrivial(moved && over);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C16", {
		{ "history", history, 25000, 600000, "histories of write/overwrite/remove/move (case variants, self-moves, overwriting moves)/snapshot save and load under a virtual clock, compared with a map model after every step; non-trivial: an overwrite and a successful move", 8, 30, 40 },
	});
}
