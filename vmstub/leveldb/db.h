// In-memory stand-in for the LevelDB client interface: an ordered byte-string map per database path.
// Used only when harnesses run inside the symbolic engine; native replays use the real library.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <string.h>
namespace leveldb {
class Slice { std::string d; public: Slice() {} Slice(const std::string& s) : d(s) {} Slice(const char* s) : d(s) {} Slice(const char* s, size_t n) : d(s, n) {} std::string ToString() const { return d; } const char* data() const { return d.data(); } size_t size() const { return d.size(); } bool empty() const { return d.empty(); }
  int compare(const Slice& b) const { return d.compare(b.d); } bool starts_with(const Slice& x) const { return d.size() >= x.d.size() && memcmp(d.data(), x.d.data(), x.d.size()) == 0; } };
inline bool operator==(const Slice& a, const Slice& b) { return a.ToString() == b.ToString(); }
class Status { int c; public: Status(int k = 0) : c(k) {} static Status OK() { return Status(0); } bool ok() const { return c == 0; } bool IsNotFound() const { return c == 1; } std::string ToString() const { return c == 0 ? "OK" : c == 1 ? "NotFound" : "IO error"; } };
class FilterPolicy { public: virtual ~FilterPolicy() {} };
class Cache { public: virtual ~Cache() {} };
inline const FilterPolicy* NewBloomFilterPolicy(int) { return new FilterPolicy; }
inline Cache* NewLRUCache(size_t) { return new Cache; }
struct Options { bool create_if_missing, error_if_exists; int max_open_files; size_t write_buffer_size; const FilterPolicy* filter_policy; Cache* block_cache; Options() : create_if_missing(false), error_if_exists(false), max_open_files(1000), write_buffer_size(4 << 20), filter_policy(0), block_cache(0) {} };
struct ReadOptions { bool fill_cache, verify_checksums; ReadOptions() : fill_cache(true), verify_checksums(false) {} }; struct WriteOptions { bool sync; WriteOptions() : sync(false) {} };
typedef std::map<std::string, std::string> Data;
struct Store { Data d; bool open; Store() : open(false) {} };
inline std::map<std::string, Store>& stores() { static std::map<std::string, Store>* s = new std::map<std::string, Store>; return *s; }
class WriteBatch { public: std::vector<std::pair<std::string, std::string> > puts; std::vector<std::string> dels; void Put(const Slice& k, const Slice& v) { puts.push_back(std::make_pair(k.ToString(), v.ToString())); } void Delete(const Slice& k) { dels.push_back(k.ToString()); } void Clear() { puts.clear(); dels.clear(); } };
class Iterator { Data d; Data::iterator i; bool v; void chk() { v = i != d.end(); } public: Iterator(const Data& x) : d(x), v(false) { i = d.end(); } virtual ~Iterator() {}
  bool Valid() const { return v; } void SeekToFirst() { i = d.begin(); chk(); } void SeekToLast() { i = d.end(); if (!d.empty()) --i; chk(); } void Seek(const Slice& k) { i = d.lower_bound(k.ToString()); chk(); } void Next() { ++i; chk(); } void Prev() { if (i == d.begin()) v = false; else --i; }
  Slice key() const { return i->first; } Slice value() const { return i->second; } Status status() const { return Status::OK(); } };
class DB { Store* s; public: DB(Store* x) : s(x) { s->open = true; } virtual ~DB() { s->open = false; }
  static Status Open(const Options& o, const std::string& n, DB** p) { *p = 0; bool have = stores().count(n) != 0; if (have && stores()[n].open) return Status(2); if (!have && !o.create_if_missing) return Status(2); if (have && o.error_if_exists) return Status(2); *p = new DB(&stores()[n]); return Status::OK(); }
  Status Get(const ReadOptions&, const Slice& k, std::string* v) { Data::iterator i = s->d.find(k.ToString()); if (i == s->d.end()) return Status(1); *v = i->second; return Status::OK(); }
  Status Put(const WriteOptions&, const Slice& k, const Slice& v) { s->d[k.ToString()] = v.ToString(); return Status::OK(); } Status Delete(const WriteOptions&, const Slice& k) { s->d.erase(k.ToString()); return Status::OK(); }
  Status Write(const WriteOptions&, WriteBatch* b) { for (size_t i = 0; i < b->puts.size(); i++) s->d[b->puts[i].first] = b->puts[i].second; for (size_t i = 0; i < b->dels.size(); i++) s->d.erase(b->dels[i]); return Status::OK(); }
  Iterator* NewIterator(const ReadOptions&) { return new Iterator(s->d); } };
inline Status DestroyDB(const std::string& n, const Options&) { std::map<std::string, Store>::iterator i = stores().find(n); if (i == stores().end()) return Status::OK(); if (i->second.open) return Status(2); stores().erase(i); return Status::OK(); }
}
