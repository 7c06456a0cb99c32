// C17: snapshots of the virtual file system as tar archives
#include "pbt.hpp"
#include "fakeclock.hpp"
#include "ref_tar.hpp"
#include "ref_inflate.hpp"
#include <extra/vfs/vfs.hpp>
#include <zlib.h>
#include <thread>
using namespace pbt; using namespace Lambda;
struct F { std::string data; long mtime; };
typedef std::map<std::string, F> Files;
static std::string lower(std::string t) { for (auto& c : t) if (c >= 'A' && c <= 'Z') c += 32; return t; }
static std::string dir() { static std::string d; static pid_t p = 0; if (p != getpid()) { p = getpid(); d = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/tar" + std::to_string(p); mkdir(d.c_str(), 0700); } return d; }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
static void spew(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << d; }
static std::string gz(const std::string& d, int level, int strategy = 0) {
	z_stream z{}; deflateInit2(&z, level, Z_DEFLATED, 31, 8, strategy); std::string o(deflateBound(&z, d.size()) + 64, 0); z.next_in = (Bytef*)d.data(); z.avail_in = d.size(); z.next_out = (Bytef*)o.data(); z.avail_out = o.size(); if (deflate(&z, Z_FINISH) != Z_STREAM_END) abort(); o.resize(z.total_out); deflateEnd(&z); return o;
}
static std::string gunzip(const std::string& d) { size_t used; auto o = refz::gunzip(Bytes(d.begin(), d.end()), &used); if (used != d.size()) throw std::runtime_error("data after the gzip member"); return std::string(o.begin(), o.end()); }
#ifdef PBT_VARIANT
static std::string ext(Src& s) { return s.pick({ ".tar", ".TAR", ".Tar" }); }
#else
static std::string ext(Src& s) { return s.pick({ ".tar", ".tar.gz", ".tgz", ".TAR", ".Tar.Gz", ".TGZ" }); }
#endif
static bool isgz(const std::string& f) { return lower(f).ends_with("gz"); }
static size_t size(Src& s, bool big) {
	switch (s.weighted({ 6, 6, 1 })) {
		case 0: return s.below(40);
		case 1: { size_t k = s.below(5) * 512, d = s.below(5); return k + d < 2 ? 0 : k + d - 2; }
		default: if (!big) return s.len(5000); { size_t u = s.pick({ (size_t)128 << 10, (size_t)2 << 20, (size_t)16 << 10 }), k = u * (1 + s.below(2)); return k + s.below(1100) - 550; }
	}
}
static std::string aname(Src& s) {
	static const std::string A = "abcXYZ019 ._-/\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xff";
	switch (s.weighted({ 4, 3, 2, 1 })) {
		case 0: return s.pick({ "a", "index.html", "Dir/File.TXT", "dir/", "/abs/path", "./x", "..", "b" });
		case 1: return s.str(A, 1 + s.below(20));
		case 2: return s.str(A, 97 + s.below(7));
		default: { auto n = s.bytestr(1 + s.len(s.chance(1, 8) ? 9000 : 700)); for (auto& c : n) if (!c) c = 'q'; return n; }
	}
}
static long amtime(Src& s) { switch (s.weighted({ 3, 1, 1 })) { case 0: return 1700000000 + s.below(1000); case 1: return s.below(3); default: return s.upto((1ll << 33) - 1); } }
static std::string brief(const Files& m) { std::string o; for (auto& f : m) o += "  " + show(f.first, 120) + " size " + std::to_string(f.second.data.size()) + " mtime " + std::to_string(f.second.mtime) + "\n"; return o; }
static Files fileset(Src& s, size_t max, bool big, VirtualFilesystem* v = nullptr) {
	Files m; size_t n = s.count(max);
	for (size_t i = 0; i < n; i++) { auto nm = aname(s); F f{ s.bytestr(size(s, big)), amtime(s) }; if (v) { fake_now = f.mtime; v->write(nm, f.data); } m[lower(nm)] = f; }
	return m;
}
static void same(Case& c, VirtualFilesystem& v, const Files& m, const char* what) {
	auto l = v.listAll(); c.checkf(l.size() == m.size(), [&] { return std::string(what) + ": " + std::to_string(l.size()) + " files, expected " + std::to_string(m.size()); }); size_t total = 0;
	for (auto& f : m) {
		auto r = v.read(f.first); c.checkf(r.has_value(), [&] { return std::string(what) + ": " + show(f.first) + " is missing"; }); total += f.first.size() + f.second.data.size();
		c.checkf(r->text() == f.second.data, [&] { auto t = r->text(); size_t i = 0; while (i < t.size() && i < f.second.data.size() && t[i] == f.second.data[i]) i++; return std::string(what) + ": contents of " + show(f.first) + " differ at byte " + std::to_string(i) + " of " + std::to_string(f.second.data.size()) + " (got " + std::to_string(t.size()) + " bytes)"; });
		c.checkf(r->modified == f.second.mtime, [&] { return std::string(what) + ": modification time of " + show(f.first) + " is " + std::to_string(r->modified) + ", expected " + std::to_string(f.second.mtime); });
	}
	auto st = v.stats(); c.checkf(st.totalFiles == m.size() && st.totalSize == total, [&] { return std::string(what) + ": totals are " + std::to_string(st.totalFiles) + " files " + std::to_string(st.totalSize) + " bytes, expected " + std::to_string(m.size()) + " and " + std::to_string(total); });
}
static void roundtrip(Src& s, Case& c) {
	VirtualFilesystem v; auto m = fileset(s, 12, s.chance(1, 8), &v); auto f = dir() + "/r" + ext(s); c.note("save as " + f.substr(dir().size()) + "\n" + brief(m)); fake_now = 1800000000;
	v.saveSnapshot(f); same(c, v, m, "after saving, the file system itself");
	auto raw = slurp(f);
	try {
		auto t = isgz(f) ? gunzip(raw) : raw; auto e = reftar::read(t); c.checkf(e.size() == m.size(), [&] { return "the archive holds " + std::to_string(e.size()) + " entries"; });
		for (auto& x : e) { auto it = m.find(x.name); c.checkf(it != m.end() && x.data == it->second.data && x.mtime == it->second.mtime && x.type == '0', [&] { return "archive entry " + show(x.name) + " (type " + x.type + ", " + std::to_string(x.data.size()) + " bytes, time " + std::to_string(x.mtime) + ") is not a saved file"; }); }
	} catch (const std::runtime_error& e) { c.fail(std::string("the saved archive is not valid: ") + e.what()); }
	{ VirtualFilesystem w; w.loadSnapshot(f); same(c, w, m, "loaded into an empty file system"); }
	{ VirtualFilesystem w; auto pre = fileset(s, 4, false, &w); if (m.size() && s.flip()) { auto it = m.begin(); std::advance(it, s.below(m.size())); fake_now = 5; w.write(it->first, "old contents"); pre[it->first] = { "old contents", 5 }; } fake_now = 1800000001; w.loadSnapshot(f); auto all = m; for (auto& p : pre) all.insert(p); same(c, w, all, "loaded into a non-empty file system"); }
	bool lng = false, odd = false; for (auto& x : m) { lng |= x.first.size() >= 100; odd |= x.second.data.size() % 512 != 0; } c.nontrivial(lng && odd && m.size() > 1); if (m.empty()) c.label("empty set");
}
static void foreign(Src& s, Case& c) {
	std::vector<reftar::Entry> e; Files m; reftar::Style st; st.chk = s.below(3); st.owner = s.flip(); st.nulltype = s.chance(1, 4); st.numfmt = s.below(3); size_t n = s.count(8); bool pre = false, other = false;
	for (size_t i = 0; i < n; i++) {
		reftar::Entry x; static const std::string A = "abcXYZ019._-\xc3\xa9"; x.mtime = amtime(s);
		switch (s.weighted({ 5, 2, 1, 1, 1, 1 })) {
			case 0: x.name = s.str(A, 1 + s.below(12)); break;
			case 4: x.name = s.str(A, 155 - s.below(3)) + "/" + s.str(A, 100 - s.below(3)); pre = true; break;	// fields without a terminator
			case 5: x.name = "././@PaxHeader"; x.type = s.pick({ 'g', 'x' }); x.data = "20 comment=" + s.str(A, 8) + "\n"; if (s.flip()) x.data += s.bytestr(size(s, s.chance(1, 20))); break;	// extensions, with contents of their own
			case 1: x.name = s.str(A, 20 + s.below(60)) + "/" + s.str(A, 40 + s.below(60)); if (x.name.size() > 100) pre = true; break;
			case 2: x.name = s.str(A, 1 + s.below(12)) + "/"; x.type = '5'; break;
			default: x.name = s.str(A, 1 + s.below(12)); x.type = s.pick({ '2', '3', '4', '6' }); break;
		}
		if (x.type == '0') { x.data = s.bytestr(size(s, s.chance(1, 20))); m[lower(x.name)] = { x.data, x.mtime }; } else other = true;
		c.note(std::string("entry ") + x.type + " " + show(x.name) + " size " + std::to_string(x.data.size())); e.push_back(x);
	}
	size_t blocks = s.pick({ (size_t)2, (size_t)20, (size_t)3 }); auto t = reftar::write(e, st, blocks); auto f = dir() + "/f" + ext(s); if (isgz(f)) t = gz(t, s.below(10), s.below(5)); spew(f, t);
	c.note("style chk " + std::to_string(st.chk) + " owner " + std::to_string(st.owner) + " nulltype " + std::to_string(st.nulltype) + " numfmt " + std::to_string(st.numfmt) + " " + f.substr(dir().size()));
	VirtualFilesystem v; v.loadSnapshot(f); same(c, v, m, "foreign archive"); c.nontrivial(pre && other);
}
static bool load(VirtualFilesystem& v, const std::string& f, std::string& why) { try { v.loadSnapshot(f); return true; } catch (const std::exception& e) { why = e.what(); return false; } }
static void damage(Src& s, Case& c) {
	Files pre; VirtualFilesystem v; pre = fileset(s, 3, false, &v); bool nt = false; int rounds = 1 + s.below(3);
	for (int r = 0; r < rounds; r++) {
		VirtualFilesystem o; auto m = fileset(s, 6, false, &o); auto f = dir() + "/d" + ext(s); fake_now = 1800000000; o.saveSnapshot(f); auto raw = slurp(f); bool z = isgz(f); size_t end = raw.size() - 1024; auto bad = raw; bool must = false, free = false; std::string what; bool kept = true;
		// header ranges of a plain archive
		std::vector<size_t> heads; if (!z) { for (size_t p = 0; p + 512 <= end;) { heads.push_back(p); p += 512; size_t n = std::stoul(raw.substr(p - 512 + 124, 12), nullptr, 8); p += n + reftar::pad(n); } }
		switch (s.weighted({ 4, 4, 1, 1, 1 })) {
			case 0: { size_t k = s.chance(1, 3) ? s.below(raw.size() / 512 + 1) * 512 : s.below(raw.size()); if (k >= raw.size()) k = raw.size() - 1; bad.resize(k); must = z || k < end; what = "truncated to " + std::to_string(k) + " of " + std::to_string(raw.size()); nt |= must && m.size() > 0; } break;
			case 1: {
				size_t p; if (!z && heads.size() && s.chance(3, 4)) { p = heads[s.below(heads.size())] + s.below(512); } else p = s.below(raw.size());
				uint8_t x = 1 + s.below(255); bad[p] ^= x; what = "byte " + std::to_string(p) + " of " + std::to_string(raw.size()) + " xor " + std::to_string(x);
				if (!z) { bool inh = false; for (auto h : heads) if (p >= h && p < h + 512) { inh = true; must = p - h < 148 || p - h >= 156; } if (!inh) { if (p >= end && p < end + 512) must = true; else free = true; } } nt |= must;
			} break;
			case 2: bad = s.bytestr(s.len(3000)); must = true; if (!z) { size_t i = 0; while (i < bad.size() && !bad[i]) i++; if (bad.size() >= 512 && i >= 512) must = false, free = true; } what = "garbage of " + std::to_string(bad.size()) + " bytes"; break;
			case 3: if (z) bad = gunzip(raw); else bad = gz(raw, 6); must = true; what = "the other compression"; break;
			default: { auto k = 1 + s.below(2000); if (z) { bad = gz(gunzip(raw).substr(0, s.below(gunzip(raw).size() - 1023)), 6); must = true; what = "gzip of a truncated archive"; } else { size_t at = heads.size() ? heads[s.below(heads.size())] : 0; bad = raw.substr(0, at) + std::string(1 + k % 511, 'x') + raw.substr(at); must = true; what = "shifted by inserted bytes at " + std::to_string(at); } } break;
		}
		spew(f, bad); c.note("archive " + f.substr(dir().size()) + " " + what + " of\n" + brief(m)); std::string why; bool ok = load(v, f, why); (void)kept;
		c.checkf(!(must && ok), [&] { return what + ": loading the damaged archive reported no error"; });
		if (!ok) c.label("refused"); else if (free) c.label("undetectable"); else c.label("harmless");
		if (free) { v.~VirtualFilesystem(); new (&v) VirtualFilesystem; pre.clear(); continue; }
		// every file present is an old one or one of the archive's, whole
		for (auto& e : v.listAll()) {
			auto t = v.read(e.name); auto it = m.find(e.name); auto po = pre.find(e.name);
			bool good = (z && !ok) /* contents are only verified at the end of a compressed stream */ || (it != m.end() && t->text() == it->second.data && t->modified == it->second.mtime) || (po != pre.end() && t->text() == po->second.data && t->modified == po->second.mtime);
			c.checkf(good, [&] { return what + ": " + show(e.name) + " is neither the old file nor the archived one"; });
		}
		for (auto& p : pre) c.checkf(v.read(p.first).has_value(), [&] { return what + ": " + show(p.first) + " disappeared"; });
		if (ok) for (auto& p : m) { auto t = v.read(p.first); c.checkf(t && t->text() == p.second.data, [&] { return what + ": load reported success but " + show(p.first) + " is missing or different"; }); }
		pre.clear(); for (auto& e : v.listAll()) { auto t = v.read(e.name); pre[e.name] = { t->text(), t->modified }; }
		// a good archive still loads afterwards
		spew(f, raw); c.checkf(load(v, f, why), [&] { return "after a refused archive a good one failed to load: " + why; }); for (auto& p : m) pre[p.first] = p.second; same(c, v, pre, "good archive after a bad one");
	}
	c.nontrivial(nt);
}
static void errors(Src& s, Case& c) {
	VirtualFilesystem v; auto m = fileset(s, 5, s.chance(1, 6), &v); bool threw = false; std::string what, f = dir() + "/e" + ext(s), why;
	auto save = [&](const std::string& p) { try { v.saveSnapshot(p); return false; } catch (const std::exception&) { return true; } };
	switch (s.weighted({ 2, 2, 2, 2, 1, 1 })) {
		case 0: { auto e = s.pick({ ".zip", "", ".gz.bak", "tar", ".tar.", ".7z", ".tar.bz2"
#ifdef PBT_VARIANT
			, ".tar.gz", ".tgz"
#endif
			}); what = std::string("save as x") + e; if (!*e && s.flip()) what = "save to empty path"; threw = save(what == "save to empty path" ? "" : dir() + "/x" + e); if (threw) { spew(dir() + "/x" + e, "x"); threw = !load(v, dir() + "/x" + e, why); what = std::string("load x") + e; unlink((dir() + "/x" + e).c_str()); } } break;
		case 1: what = "save into a missing directory"; threw = save(dir() + "/missing/x" + ext(s)); break;
		case 2: { what = "save onto a full device"; auto l = dir() + "/full" + ext(s); unlink(l.c_str()); if (symlink("/dev/full", l.c_str())) c.fail("symlink"); threw = save(l); unlink(l.c_str()); } break;
		case 3: { auto n = s.flip() ? std::string() : std::string("a\0b", 3); what = "save with the unusable name " + show(n); fake_now = 7; auto d = s.bytestr(size(s, false)); v.write(n, d); threw = save(f); v.remove(n); } break;
		case 4: what = "load a missing file"; threw = !load(v, dir() + "/nothing" + ext(s), why); break;
		default: { what = "load a directory"; auto d = dir() + "/dir" + ext(s); mkdir(d.c_str(), 0700); threw = !load(v, d, why) ; if (threw) { what = "save onto a directory"; threw = save(d); } rmdir(d.c_str()); } break;
	}
	c.note(what + " with\n" + brief(m)); c.checkf(threw, [&] { return what + " reported no error"; }); same(c, v, m, "after a failed operation");
	v.saveSnapshot(f); VirtualFilesystem w; w.loadSnapshot(f); same(c, w, m, "after a failed operation and a good save"); c.nontrivial(m.size() > 1);
}
// ------------------------------------------------------------ standard tar
static std::string cmd(const std::string& q) { auto p = popen((q + " 2>&1").c_str(), "r"); std::string o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p))) o.append(b, n); int st = pclose(p); if (st) throw std::runtime_error("'" + q + "' failed: " + o.substr(0, 300)); return o; }
static void standard(Src& s, Case& c) {
	bool out = s.flip(); VirtualFilesystem v; Files m; size_t n = 1 + s.count(7); static const std::string A = "abcxyz019._-+=,@ \xc3\xa9\xff"; bool nt = false; auto d = dir() + "/std"; std::string f = dir() + "/s" + ext(s), cont;
	std::vector<std::string> names; for (size_t i = 0; i < n; i++) { std::string nm = "n" + std::to_string(i); size_t parts = s.below(4); for (size_t k = 0; k < parts; k++) nm += "/d" + s.str(A, 1 + s.below(60)) + "e"; if (s.flip()) nm += s.str(A, s.below(40)) + "z"; names.push_back(nm); m[lower(nm)] = { s.bytestr(size(s, s.chance(1, 10))), amtime(s) % 4000000000 }; nt |= nm.size() > 100; }
	c.note(std::string(out ? "our archive read by tar: " : "archive made by tar: ") + f.substr(dir().size()) + "\n" + brief(m)); setenv("LC_ALL", "C", 1);
	if (out) {
		for (auto& x : m) { fake_now = x.second.mtime; v.write(x.first, x.second.data); } v.saveSnapshot(f); fake_now = -1;
		try { if (isgz(f)) { cmd("gzip -t < " + f); } cmd("mkdir -p " + d + " && tar -x" + (isgz(f) ? "z" : "") + "f " + f + " -C " + d); } catch (const std::runtime_error& e) { c.fail(e.what()); }
		size_t found = 0; for (auto& x : m) { struct stat st; auto p = d + "/" + x.first; c.checkf(!stat(p.c_str(), &st) && S_ISREG(st.st_mode), [&] { return "tar did not extract " + show(x.first); }); c.checkf(slurp(p) == x.second.data, [&] { return "tar extracted other contents for " + show(x.first); }); c.checkf(st.st_mtime == x.second.mtime, [&] { return "tar extracted another time for " + show(x.first); }); found++; }
		auto cnt = cmd("find " + d + " -type f | wc -l"); c.checkf(std::stoul(cnt) == found, [&] { return "tar extracted " + cnt + " files"; });
	} else {
		const char* fmt = "ustar"; cmd("mkdir -p " + d); for (auto& x : m) { auto p = d + "/" + x.first; cmd("mkdir -p '" + p.substr(0, p.rfind('/')) + "'"); spew(p, x.second.data); timespec ts[2] = { { x.second.mtime, 0 }, { x.second.mtime, 0 } }; utimensat(AT_FDCWD, p.c_str(), ts, 0); }
		bool dirs = s.flip(); std::string list, tops; std::set<std::string> seen; for (auto& x : m) { list += x.first + "\n"; auto t = x.first.substr(0, x.first.find('/')); if (seen.insert(t).second) tops += " '" + t + "'"; } spew(dir() + "/list", list); c.note(fmt); bool made = true;
		try { cmd(std::string("tar --format=") + fmt + " -c" + (isgz(f) ? "z" : "") + "f " + f + " -C " + d + (dirs ? tops : " --verbatim-files-from -T " + dir() + "/list")); } catch (const std::runtime_error&) { made = false; c.label("tar could not store the names"); }
		if (made) { fake_now = 1800000000; v.loadSnapshot(f); same(c, v, m, "archive made by tar"); } else nt = false; fake_now = -1;
	}
	cmd("rm -rf " + d); c.nontrivial(nt);
}
int main(int argc, char** argv) {
	return run(argc, argv, "C17", {
		{ "roundtrip", roundtrip, 4000, 100000, "file sets saved in every format, read back by an independent tar/gzip reader and loaded into empty and non-empty file systems; non-trivial: several files, a name over 99 bytes and a size off the block grid", 8, 30, 40 },
		{ "foreign", foreign, 4000, 100000, "ustar archives written by an independent writer (prefix field, directories, links, numeric and checksum styles, any gzip level); non-trivial: prefix and non-file entries", 8, 30, 30 },
		{ "damage", damage, 4000, 100000, "truncated, corrupted, shifted and garbage archives against file systems with previous contents, then a good load; non-trivial: damage that must be detected", 8, 30, 40 },
		{ "errors", errors, 2000, 20000, "wrong extensions, missing directories, full devices, unusable names; non-trivial: several files", 8, 30, 30 },
		{ "standard", standard, 2000, 40000, "extraction by and archives from GNU tar and gzip; non-trivial: a name over 100 bytes", 8, 60, 40 },
	});
}
