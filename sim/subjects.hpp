// The library under one build configuration, behind a small type-erased interface.
#pragma once
#include "model.hpp"
#include <stdio.h>
#include <iosfwd>
#include <fstream>

namespace boost { namespace iostreams { class mapped_file_source; } }

namespace sim {

struct InputError { int tag; };             // thrown by an input range, on request
// at the at-th element read (0 = never) throw, or run what is planned there and, if every is set, again every so many
struct InputFault {
    u64 at, seen, every; std::function<void()> hook;
    InputFault() : at(0), seen(0), every(0) {}
    void tick() {
        if (++seen != at) return;
        if (!hook) { count(C_f_input_throw); throw InputError(); }
        HarnessScope hs; if (every) at += every; hook();
    }
    void step() { if (hook) tick(); }       // between two calls of the caller's own
};

struct TreeNode { std::string name; u64 size, depth; };

struct LibCursor {
    virtual ~LibCursor() {}
    virtual void op(Query const& q, Ans& out) = 0;
    virtual LibCursor* clone() = 0;
    virtual void assign(LibCursor& o) = 0;
    virtual void swap(LibCursor& o) = 0;
};

struct Obj {
    virtual ~Obj() {}
    virtual void query(Query const& q, Ans& out) = 0;
    virtual LibCursor* cursor(int ck, u64 a, u64 b) = 0;
    virtual u64 freeze(std::ofstream& f, u64 flags) = 0;
    virtual u64 freeze(const char* name, u64 flags) = 0;
    virtual u64 map(const char* base, u64 flags) = 0;
    virtual u64 map(boost::iostreams::mapped_file_source const& f, u64 flags) = 0;
    virtual u64 size_of() = 0;
    virtual void size_tree(std::vector<TreeNode>& out, std::string& dump) = 0;
    virtual void swap(Obj& o) = 0;
    virtual void dispose() = 0;
    virtual bool is_vector() const { return false; }
    virtual void v_clear() {}
    virtual void v_assign(Model const&, InputFault*) {}
    virtual void v_steal(Model const&) {}
    void destroy();                         // delete inside the library scope
};

struct Builder {
    virtual ~Builder() {}
    virtual void reserve(u64 n) = 0;
    virtual void push_back(bool b) = 0;
    virtual void set(u64 pos, bool b) = 0;
    virtual void set_bits(u64 pos, u64 bits, u64 len) = 0;
    virtual void append_bits(u64 bits, u64 len) = 0;
    virtual void append_pattern(u64 w, u64 n) = 0;              // n bits, the word over and over
    virtual void zero_extend(u64 n) = 0;
    virtual void one_extend(u64 n) = 0;
    virtual void append(Builder& o) = 0;
    virtual void reverse() = 0;
    virtual void swap(Builder& o) = 0;
    virtual u64 size() = 0;
    virtual void words(std::vector<u64>& out) = 0;              // what move_bits shows
    virtual Obj* finish(u64 kind, u64 var) = 0;                 // K_BV, K_RS, K_BP, K_DA or K_EF made from it
    void destroy();
};

struct Lines {                                                  // a begin/end pair of line iterators
    virtual ~Lines() {}
    virtual bool done() = 0;
    virtual void get(std::string& out) = 0;
    virtual void inc() = 0;
    virtual Lines* clone() = 0;
    virtual void assign(Lines& o) = 0;
    virtual bool same(Lines& o) = 0;
    void destroy();
};
struct MmapLines {
    virtual ~MmapLines() {}
    virtual Lines* begin() = 0;
    void destroy();
};
struct AutoFile {
    virtual ~AutoFile() {}
    virtual FILE* get() = 0;
    void destroy();
};

struct Formula { virtual ~Formula() {} virtual u64 at(u64 i) const = 0; };

struct Factory {
    virtual ~Factory() {}
    virtual const char* name() = 0;
    virtual Obj* empty(u64 kind) = 0;
    virtual Obj* build(Model const& m, u64 route, InputFault* f) = 0;
    virtual Obj* build_formula(u64 kind, u64 n, u64 universe, Formula const& f) = 0;   // elements computed, not stored
    virtual Builder* builder(u64 n, bool init) = 0;
    virtual bool getline(std::string& line, FILE* f, bool trim) = 0;
    virtual Lines* lines(FILE* f, bool trim) = 0;
    virtual Lines* buffer_lines(const char* p, size_t n) = 0;
    virtual MmapLines* mmap_lines(const char* name) = 0;
    virtual AutoFile* auto_file(const char* name, const char* mode) = 0;
};

enum Config { CFG_MAIN, CFG_NOINTR, CFG_POPCNT, CFG_REF, N_CONFIGS };
Factory* factory(u64 cfg);
unsigned route_count(u64 kind);             // build routes that give the same content

} // namespace sim
