#pragma once
#include <string>
namespace sx {
/// the next parallel regions are executed by so many threads, started in ascending or descending order
void ompConfig(int threads, bool reverse);
/// parallel regions so far in which two threads touched the same memory, one of them writing, without a lock
int ompRaces();
long ompRegions();
long ompAccesses();
void ompAbandon();
} // namespace sx
