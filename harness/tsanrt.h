#pragma once
// Runs code that is compiled with -fsanitize=thread on an own runtime: two fibers, of which every
// atomic operation is a point where the other can be scheduled, and where a load can return an older
// value that the C++ memory model allows. All accesses of the watched objects are reported.
#include <cstddef>
#include <functional>
#include <set>
#include <string>
#include <vector>
namespace rt {
// Accesses within these ranges are reported, relative to the start of the first.
void watch(void const* p, size_t len);
struct Choices {
	unsigned seed = 0;	 // random choices, when not 0
	int pswitch = 0;	 // percentage
	int pstale = 0;		 // percentage
	std::set<int> deviate;	 // otherwise, deviate at these choices
	int first = 1;
};
// Runs both to completion. 1 is the producer, 2 is the consumer.
void run(Choices const& c, std::function<void()> t1, std::function<void()> t2);
// the thread that is running; 0 is outside run()
int self();
// report an event of this thread
void event(std::string const& json);
// The accesses so far that have not been reported yet.
std::string flush();
// a point where the other may run
void point();
// do not observe this scope
struct Quiet {
	Quiet();
	~Quiet();
};
int choices(); // number of choice points so far
} // namespace rt
