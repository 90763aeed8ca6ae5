// Shared harness pieces: an in-memory output file (the public AssemblerFile interface) and a driver
// for the public entry point runArmips.  Nothing here looks at how the assembler is written.
#pragma once
#include "vc.h"
#include "Core/Assembler.h"
#include "Core/Common.h"
#include "Core/FileManager.h"
#include "Core/Misc.h"
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

struct MemFile : AssemblerFile
{
	static const int SIZE = 512;
	uint8_t buf[SIZE];
	int64_t pos = 0, base = 0, end = 0;
	bool isop = false, bad = false;
	int writes = 0;
	fs::path nm;
	bool fixedAddr = true;
	MemFile() { memset(buf, 0, sizeof(buf)); }
	bool open(bool) override { isop = true; pos = 0; return true; }
	void close() override { isop = false; }
	bool isOpen() override { return isop; }
	bool write(void* d, size_t n) override
	{
		writes++;
		if (pos < 0 || pos + (int64_t) n > SIZE) { bad = true; return false; }
		memcpy(buf + pos, d, n);
		pos += n;
		if (pos > end) end = pos;
		return true;
	}
	int64_t getVirtualAddress() override { return base + pos; }
	int64_t getPhysicalAddress() override { return pos; }
	int64_t getHeaderSize() override { return base; }
	bool seekVirtual(int64_t a) override { pos = a - base; return true; }
	bool seekPhysical(int64_t a) override { pos = a; return true; }
	bool hasFixedVirtualAddress() override { return fixedAddr; }
	const fs::path& getFileName() override { return nm; }
};

struct Asm
{
	ArmipsArguments a;
	std::shared_ptr<MemFile> f;
	std::vector<std::string> errors;
	bool ok = false;
	Asm()
	{
		f = std::make_shared<MemFile>();
		a.mode = ArmipsMode::MEMORY;
		a.silent = true;
		a.memoryFile = f;
		a.errorsResult = &errors;
	}
	Asm& at(int64_t base) { f->base = base; return *this; }
	Asm& label(const char* n, int64_t v) { a.labels.push_back({ Identifier(n), v }); return *this; }
	bool run(const std::string& text)
	{
		a.content = text;
		ok = runArmips(a);
		return ok;
	}
	uint8_t u8(int o) const { return f->buf[o]; }
	uint16_t u16(int o) const { return (uint16_t) (f->buf[o] | (f->buf[o + 1] << 8)); }
	uint32_t u32(int o) const { uint32_t v; memcpy(&v, f->buf + o, 4); return v; }
	uint64_t u64(int o) const { uint64_t v; memcpy(&v, f->buf + o, 8); return v; }
	uint32_t be32(int o) const { return __builtin_bswap32(u32(o)); }
	uint16_t be16(int o) const { return __builtin_bswap16(u16(o)); }
	int64_t size() const { return f->end; }
};

// a whole run of the assembler on files: sources and inputs in the in-memory file system
struct FileAsm
{
	ArmipsArguments a;
	std::vector<std::string> errors;
	bool ok = false;
	FileAsm()
	{
		vfs::state().reset();
		a.mode = ArmipsMode::FILE;
		a.silent = true;
		a.inputFileName = "/w/in.asm";
		a.errorsResult = &errors;
	}
	FileAsm& label(const char* n, int64_t v) { a.labels.push_back({ Identifier(n), v }); return *this; }
	// an expression with the value v; unlike a label it leaves no trace in the symbol data (whose sorting would fork)
	std::string val(int64_t v)
	{
		auto f = vfs::state().rec("/w/args");
		f->exists = true;
		unsigned at = f->data.size();
		for (int i = 0; i < 8; i++) f->data.push_back((uint8_t) ((uint64_t) v >> (8 * i)));
		std::string n;
		do { n.insert(n.begin(), char('0' + at % 10)); at /= 10; } while (at);
		return "reads64(\"args\"," + n + ")";
	}
	std::shared_ptr<vfs::File> put(const std::string& name, const std::string& content) { return vfs::state().put("/w/" + name, content); }
	std::shared_ptr<vfs::File> put(const std::string& name, const std::vector<uint8_t>& content) { auto f = put(name, std::string()); f->data = content; return f; }
	std::shared_ptr<vfs::File> get(const std::string& name) { return vfs::state().rec("/w/" + name); }
	bool exists(const std::string& name) { return vfs::state().find("/w/" + name) != nullptr; }
	bool run(const std::string& text)
	{
		put("in.asm", text);
		ok = runArmips(a);
		return ok;
	}
};
