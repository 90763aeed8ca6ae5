// Stand-in for std::filesystem and std::fstream in the verifier's build: an in-memory file system with
// POSIX paths.  It is the assumed contract of that dependency: what the C++ standard says about opening,
// seeking, reading, writing, copying and removing files, with no disk errors other than the ones the
// harness asks for (missing and write-protected files).  Found before the repository's header of the
// same name; the repository's code is unchanged.
#pragma once
#include "vc.h"
#include <cstring>
#include <cstdint>
#include <ios>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <vector>
#include <algorithm>
#include <fstream>
#include <ostream>

namespace vfs
{
	struct File
	{
		std::string name;
		std::vector<uint8_t> data;
		bool readOnly = false, noOpen = false;
		bool loose = false;                    // a write at a symbolic position happened: only the log is meaningful
		struct Op { int64_t pos; std::vector<uint8_t> bytes; };
		std::vector<Op> log;                   // writes since the last create/truncate/copy, in order
		int created = 0, truncated = 0, opened = 0, copied = 0;
		bool exists = false;
	};
	struct State
	{
		std::vector<std::shared_ptr<File>> files;
		int removed = 0;
		std::string cwd = "/w";
		void reset() { files.clear(); removed = 0; cwd = "/w"; }
		// the record of a name survives removal, so that a harness can see what happened to it
		std::shared_ptr<File> rec(const std::string& n)
		{
			for (auto& f : files) if (f->name == n) return f;
			auto f = std::make_shared<File>();
			f->name = n;
			files.push_back(f);
			return f;
		}
		std::shared_ptr<File> find(const std::string& n)
		{
			for (auto& f : files) if (f->name == n) return f->exists ? f : nullptr;
			return nullptr;
		}
		std::shared_ptr<File> put(const std::string& n, const std::string& content)
		{
			auto f = rec(n);
			f->exists = true;
			f->data.assign(content.begin(), content.end());
			return f;
		}
	};
	inline State& state() { static State s; return s; }
}

namespace fs
{
	class path
	{
	public:
		typedef char value_type;
		typedef std::string string_type;
		static constexpr char preferred_separator = '/';
		path() {}
		path(const path& o) : s(o.s) {}
		path(path&& o) noexcept : s(std::move(o.s)) {}
		path(const std::string& t) : s(t) {}
		path(std::string&& t) : s(std::move(t)) {}
		path(std::string_view t) : s(t) {}
		path(const char* t) : s(t) {}
		template<class It> path(It a, It b) : s(a, b) {}
		path& operator=(const path& o) { s = o.s; return *this; }
		path& operator=(path&& o) noexcept { s = std::move(o.s); return *this; }
		path& operator=(const std::string& t) { s = t; return *this; }
		path& operator=(const char* t) { s = t; return *this; }
		path& assign(const std::string& t) { s = t; return *this; }
		void clear() { s.clear(); }
		void swap(path& o) { s.swap(o.s); }
		const std::string& native() const { return s; }
		const char* c_str() const { return s.c_str(); }
		operator std::string() const { return s; }
		std::string string() const { return s; }
		std::string u8string() const { return s; }
		std::string generic_string() const { return s; }
		std::string generic_u8string() const { return s; }
		bool empty() const { return s.empty(); }
		bool is_absolute() const { return !s.empty() && s[0] == '/'; }
		bool is_relative() const { return !is_absolute(); }
		bool has_root_directory() const { return is_absolute(); }
		bool has_root_path() const { return is_absolute(); }
		bool has_root_name() const { return false; }
		path root_name() const { return path(); }
		path root_directory() const { return is_absolute() ? path("/") : path(); }
		path root_path() const { return root_directory(); }
		path relative_path() const { size_t i = 0; while (i < s.size() && s[i] == '/') i++; return path(s.substr(i)); }
		path filename() const { size_t p = s.rfind('/'); return path(p == std::string::npos ? s : s.substr(p + 1)); }
		bool has_filename() const { return !filename().empty(); }
		bool has_parent_path() const { return !parent_path().empty(); }
		bool has_extension() const { return !extension().empty(); }
		bool has_stem() const { return !stem().empty(); }
		path parent_path() const
		{
			size_t p = s.rfind('/');
			if (p == std::string::npos) return path();
			while (p > 0 && s[p - 1] == '/') p--;
			return path(s.substr(0, p == 0 ? 1 : p));
		}
		path extension() const { std::string f = filename().s; size_t p = f.rfind('.'); return path(p == std::string::npos || p == 0 || f == ".." ? std::string() : f.substr(p)); }
		path stem() const { std::string f = filename().s; size_t p = f.rfind('.'); return path(p == std::string::npos || p == 0 || f == ".." ? f : f.substr(0, p)); }
		path& remove_filename() { size_t p = s.rfind('/'); if (p == std::string::npos) s.clear(); else s.resize(p + 1); return *this; }
		path& replace_filename(const path& r) { remove_filename(); return *this /= r; }
		path& replace_extension(const path& r = path())
		{
			std::string e = extension().s;
			s.resize(s.size() - e.size());
			if (!r.empty()) { if (r.s[0] != '.') s += '.'; s += r.s; }
			return *this;
		}
		path& make_preferred() { return *this; }
		path& operator/=(const path& o)
		{
			if (o.is_absolute()) { s = o.s; return *this; }
			if (!s.empty() && s.back() != '/') s += '/';
			s += o.s;
			return *this;
		}
		path& append(const path& o) { return *this /= o; }
		path& operator+=(const path& o) { s += o.s; return *this; }
		path& concat(const path& o) { s += o.s; return *this; }
		friend path operator/(const path& a, const path& b) { path r(a); r /= b; return r; }
		int compare(const path& o) const { return s.compare(o.s); }
		friend bool operator==(const path& a, const path& b) { return a.s == b.s; }
		friend bool operator!=(const path& a, const path& b) { return a.s != b.s; }
		friend bool operator<(const path& a, const path& b) { return a.s < b.s; }
		friend bool operator<=(const path& a, const path& b) { return a.s <= b.s; }
		friend bool operator>(const path& a, const path& b) { return a.s > b.s; }
		friend bool operator>=(const path& a, const path& b) { return a.s >= b.s; }
		std::vector<std::string> parts() const
		{
			std::vector<std::string> r;
			std::string cur;
			for (char c : s)
			{
				if (c == '/') { if (!cur.empty()) r.push_back(cur); cur.clear(); }
				else cur += c;
			}
			if (!cur.empty()) r.push_back(cur);
			return r;
		}
		path lexically_normal() const
		{
			if (s.empty()) return path();
			std::vector<std::string> r, p = parts();
			bool abs = is_absolute();
			for (auto& c : p)
			{
				if (c == ".") continue;
				if (c == "..")
				{
					if (!r.empty() && r.back() != "..") { r.pop_back(); continue; }
					if (abs) continue;
				}
				r.push_back(c);
			}
			std::string t = abs ? "/" : "";
			for (size_t i = 0; i < r.size(); i++) { if (i) t += '/'; t += r[i]; }
			bool slash = s.back() == '/' || (p.size() && (p.back() == "." || p.back() == ".."));
			if (slash && !r.empty() && r.back() != "..") t += '/';
			if (t.empty()) t = ".";
			return path(t);
		}
		path lexically_relative(const path& base) const
		{
			if (is_absolute() != base.is_absolute()) return path();
			std::vector<std::string> a = parts(), b = base.parts();
			size_t i = 0;
			while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
			std::string t;
			for (size_t k = i; k < b.size(); k++) t += t.empty() ? ".." : "/..";
			for (size_t k = i; k < a.size(); k++) { if (!t.empty()) t += '/'; t += a[k]; }
			return path(t.empty() ? std::string(".") : t);
		}
		path lexically_proximate(const path& base) const { path r = lexically_relative(base); return r.empty() ? *this : r; }
		friend std::ostream& operator<<(std::ostream& os, const path& p) { return os << '"' << p.s << '"'; }
	private:
		std::string s;
	};
	inline path u8path(const std::string& s) { return path(s); }
	inline void swap(path& a, path& b) { a.swap(b); }

	class filesystem_error : public std::runtime_error
	{
	public:
		filesystem_error(const std::string& w, std::error_code = std::error_code()) : std::runtime_error(w) {}
	};
	enum class copy_options : unsigned short { none = 0, skip_existing = 1, overwrite_existing = 2, update_existing = 4, recursive = 8 };
	inline copy_options operator|(copy_options a, copy_options b) { return copy_options((unsigned) a | (unsigned) b); }
	inline copy_options operator&(copy_options a, copy_options b) { return copy_options((unsigned) a & (unsigned) b); }

	inline path current_path() { return path(vfs::state().cwd); }
	inline path current_path(std::error_code&) { return current_path(); }
	// every directory exists
	inline void current_path(const path& p, std::error_code& ec) { ec.clear(); vfs::state().cwd = (p.is_absolute() ? p : current_path() / p).lexically_normal().string(); }
	inline void current_path(const path& p) { std::error_code ec; current_path(p, ec); }
	inline path absolute(const path& p) { return p.is_absolute() ? p : p.empty() ? p : current_path() / p; }
	inline path absolute(const path& p, std::error_code&) { return absolute(p); }
	inline std::string vfsKey(const path& p) { return absolute(p).lexically_normal().string(); }
	inline path weakly_canonical(const path& p) { return absolute(p).lexically_normal(); }
	inline path canonical(const path& p) { return absolute(p).lexically_normal(); }
	inline path relative(const path& p, const path& b = current_path()) { return canonical(p).lexically_relative(canonical(b)); }
	inline path proximate(const path& p, const path& b = current_path()) { return canonical(p).lexically_proximate(canonical(b)); }
	inline void vfsSet(std::error_code& ec, int v) { ec = std::error_code(v, std::system_category()); }
	inline bool exists(const path& p) { return vfs::state().find(vfsKey(p)) != nullptr; }
	inline bool exists(const path& p, std::error_code& ec) { vfsSet(ec, 0); return exists(p); }
	inline bool is_regular_file(const path& p) { return exists(p); }
	inline bool is_regular_file(const path& p, std::error_code& ec) { return exists(p, ec); }
	inline bool is_directory(const path&) { return false; }
	inline uintmax_t file_size(const path& p, std::error_code& ec)
	{
		auto f = vfs::state().find(vfsKey(p));
		vfsSet(ec, f ? 0 : 2);
		return f ? f->data.size() : (uintmax_t) -1;
	}
	inline uintmax_t file_size(const path& p)
	{
		std::error_code ec;
		uintmax_t r = file_size(p, ec);
		if (r == (uintmax_t) -1) throw filesystem_error("file_size");
		return r;
	}
	inline bool equivalent(const path& a, const path& b, std::error_code& ec)
	{
		bool x = exists(a), y = exists(b);
		vfsSet(ec, x || y ? 0 : 2);
		return x && y && vfsKey(a) == vfsKey(b);
	}
	inline bool equivalent(const path& a, const path& b) { std::error_code ec; return equivalent(a, b, ec); }
	inline bool copy_file(const path& a, const path& b, copy_options o, std::error_code& ec)
	{
		auto from = vfs::state().find(vfsKey(a));
		auto to = vfs::state().rec(vfsKey(b));
		if (!from || from->noOpen || from == to) { vfsSet(ec, 2); return false; }
		if (to->readOnly || to->noOpen) { vfsSet(ec, 13); return false; }
		if (to->exists && (o & copy_options::overwrite_existing) != copy_options::overwrite_existing)
		{
			vfsSet(ec, (o & copy_options::skip_existing) == copy_options::skip_existing ? 0 : 17);
			return false;
		}
		vfsSet(ec, 0);
		to->exists = true;
		to->data = from->data;
		to->copied++;
		to->log.clear();
		return true;
	}
	inline bool copy_file(const path& a, const path& b, std::error_code& ec) { return copy_file(a, b, copy_options::none, ec); }
	inline bool copy_file(const path& a, const path& b, copy_options o = copy_options::none)
	{
		std::error_code ec;
		bool r = copy_file(a, b, o, ec);
		if (!r && (o & copy_options::skip_existing) != copy_options::skip_existing) throw filesystem_error("copy_file");
		return r;
	}
	inline bool remove(const path& p, std::error_code& ec)
	{
		auto f = vfs::state().find(vfsKey(p));
		vfsSet(ec, 0);
		if (!f) return false;
		f->exists = false;
		f->data.clear();
		f->log.clear();
		vfs::state().removed++;
		return true;
	}
	inline bool remove(const path& p) { std::error_code ec; return remove(p, ec); }

	class vfsStream
	{
	public:
		typedef std::ios_base::openmode openmode;
		typedef std::ios_base::iostate iostate;
		typedef std::ios_base::seekdir seekdir;
		static constexpr openmode in = std::ios_base::in, out = std::ios_base::out, trunc = std::ios_base::trunc, binary = std::ios_base::binary, app = std::ios_base::app, ate = std::ios_base::ate;
		static constexpr iostate goodbit = std::ios_base::goodbit, eofbit = std::ios_base::eofbit, failbit = std::ios_base::failbit, badbit = std::ios_base::badbit;
		static constexpr seekdir beg = std::ios_base::beg, cur = std::ios_base::cur, end = std::ios_base::end;
		vfsStream() {}
		vfsStream(const vfsStream&) = delete;
		vfsStream(vfsStream&&) = default;
		vfsStream& operator=(vfsStream&&) = default;
		~vfsStream() {}
		bool is_open() const { return f != nullptr; }
		void close() { if (!f) st |= failbit; f = nullptr; }
		bool good() const { return st == goodbit; }
		bool eof() const { return (st & eofbit) != 0; }
		bool fail() const { return (st & (failbit | badbit)) != 0; }
		bool bad() const { return (st & badbit) != 0; }
		explicit operator bool() const { return !fail(); }
		bool operator!() const { return fail(); }
		iostate rdstate() const { return st; }
		void clear(iostate s = goodbit) { st = s; }
		void setstate(iostate s) { st |= s; }
		int64_t gcount() const { return gc; }
		vfsStream& flush() { return *this; }
		int64_t tellg() { return fail() || !f ? -1 : pos; }
		int64_t tellp() { return fail() || !f ? -1 : pos; }
		vfsStream& seekg(int64_t p) { st &= ~eofbit; seek(p); return *this; }
		vfsStream& seekp(int64_t p) { seek(p); return *this; }
		vfsStream& seekg(int64_t p, seekdir d) { st &= ~eofbit; seek(p, d); return *this; }
		vfsStream& seekp(int64_t p, seekdir d) { seek(p, d); return *this; }
		vfsStream& read(char* d, int64_t n)
		{
			gc = 0;
			if (!good()) { st |= failbit; return *this; }
			if (!f || !(m & in) || n < 0) { if (n != 0) st |= failbit | eofbit; return *this; }
			int64_t size = (int64_t) f->data.size(), have = pos >= size ? 0 : size - pos, k = n < have ? n : have;
			const uint8_t* src = f->data.data();
			if (!__vc_is_sym((uint64_t) k) && !__vc_is_sym((uint64_t) pos)) { if (k > 0) memcpy(d, src + pos, (size_t) k); }
			else for (int64_t i = 0; i < k; i++) d[i] = (char) src[pos + i];
			pos += k;
			gc = k;
			if (k < n) st |= eofbit | failbit;
			return *this;
		}
		int get()
		{
			char c;
			read(&c, 1);
			return gc == 1 ? (unsigned char) c : -1;
		}
		vfsStream& get(char& c) { read(&c, 1); return *this; }
		int peek()
		{
			gc = 0;
			if (!good()) return -1;
			if (!f || pos >= (int64_t) f->data.size()) { st |= eofbit; return -1; }
			return f->data[(size_t) pos];
		}
		vfsStream& ignore(int64_t n = 1) { char c; for (int64_t i = 0; i < n && good(); i++) read(&c, 1); return *this; }
		vfsStream& put(char c) { return write(&c, 1); }
		vfsStream& write(const char* d, int64_t n)
		{
			if (!good()) { st |= failbit; return *this; }
			if (!f || !(m & out)) { if (n != 0) st |= badbit; return *this; }
			if (m & app) pos = (int64_t) f->data.size();
			if (n <= 0) return *this;
			f->log.push_back({ pos, std::vector<uint8_t>((const uint8_t*) d, (const uint8_t*) d + n) });
			if (__vc_is_sym((uint64_t) pos)) f->loose = true;
			else if (!f->loose && pos + n <= 1 << 16)
			{
				if ((int64_t) f->data.size() < pos + n) f->data.resize((size_t) (pos + n), 0);
				memcpy(f->data.data() + pos, d, (size_t) n);
			}
			else f->loose = true;
			pos += n;
			return *this;
		}
		void open(const path& p, openmode mode)
		{
			if (f) { st |= failbit; return; }
			auto r = vfs::state().rec(vfsKey(p));
			bool write = (mode & (out | app | trunc)) != 0, create = write && !(mode & in) || (mode & (trunc | app));
			if (p.empty() || r->noOpen || (write && r->readOnly) || (!r->exists && !create)) { st |= failbit; return; }
			if (write) r->opened++;
			if (!r->exists) { r->exists = true; r->created++; r->data.clear(); r->log.clear(); }
			else if (write && ((mode & trunc) || (!(mode & in) && !(mode & app)))) { r->truncated++; r->data.clear(); r->log.clear(); }
			st = goodbit;
			f = r;
			m = mode;
			pos = (mode & (ate | app)) ? (int64_t) r->data.size() : 0;
		}
	private:
		void seek(int64_t p)
		{
			if (fail()) return;
			if (!f || p < 0) { st |= failbit; return; }
			pos = p;
		}
		void seek(int64_t p, seekdir d)
		{
			if (!f) { if (!fail()) st |= failbit; return; }
			seek(d == beg ? p : d == cur ? pos + p : (int64_t) f->data.size() + p);
		}
		std::shared_ptr<vfs::File> f;
		openmode m = openmode();
		iostate st = goodbit;
		int64_t pos = 0, gc = 0;
	};
	template<int DEF> class vfsStreamOf : public vfsStream
	{
		static openmode def(openmode m) { return DEF == 1 ? m | in : DEF == 2 ? m | out : m; }
	public:
		vfsStreamOf() {}
		explicit vfsStreamOf(const path& p, openmode m = DEF == 1 ? in : DEF == 2 ? out : in | out) { open(p, m); }
		void open(const path& p, openmode m = DEF == 1 ? in : DEF == 2 ? out : in | out) { vfsStream::open(p, def(m)); }
	};
	typedef vfsStreamOf<1> ifstream;
	typedef vfsStreamOf<2> ofstream;
	typedef vfsStreamOf<3> fstream;
}
