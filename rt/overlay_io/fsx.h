// In-memory file system used instead of the operating system's (rt_io.cpp holds it): names map to file objects, open files keep
// their object, opens and other calls fail when the harness's fault schedule says so. Contains no PlutoUtils code.
#pragma once
#include <string>
#include <vector>
#include <system_error>
#include <cstdint>
namespace fsx {
struct Node { std::string name; bool dir; int inode; };
struct Inode { std::string data; };
enum Call { OPEN, MKDIR, REMOVE, RENAME, STAT };
int find(const std::string& name);                // index of the name, -1 if there is none
bool isDir(const std::string& name); bool parentIsDir(const std::string& name);
int open(const std::string& name, bool write, bool trunc, bool create);   // inode, -1 on failure
bool fails(Call c);                               // does this call fail now?
bool mkdir(const std::string& name); bool mkdirs(const std::string& name); bool remove(const std::string& name); int rename(const std::string& a, const std::string& b);
std::string& data(int inode); unsigned files(); const Node& node(unsigned i);
void put(const std::string& name, const std::string& data);   // for harnesses
bool get(const std::string& name, std::string& out);
void faults(int opens, int others);               // how many opens / other calls may fail
const std::string& cwd();
}
