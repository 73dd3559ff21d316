// Execution traces of the library (variant ct: compiler coverage callbacks on every edge, load and store).
// Two runs start from the same process state (fork) and differ in a secret alone; the second is compared,
// event by event, with the first.
#pragma once
#include "h.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace trace
{
	const size_t CAP = 4 << 20;
	struct Event { uint32_t pc; uint32_t kind; uint64_t what; };      // kind 0: edge, 1: access, 2: bytes compared
	struct Run { uint64_t n, hash, marked, result, outcome; bool ended, differs; uint64_t at; Event a, b; };
	struct Shared { Run run[16]; Event e[CAP]; };
	extern Shared* shared;
	extern uint64_t mark;       // the event at which a run notes its hash
	extern bool addresses;      // whether addresses are compared
	// what is recorded lies between these two
	struct Watch { Watch(); ~Watch(); };
	// result: what was computed; outcome: what anyone may know
	struct Out { uint64_t outcome, result; };
	// runs f(0), f(1), ... each in a process of its own that starts from the same state
	void runs(int n, const std::function<Out(int)>& f);
	std::string where(uint32_t pc);
}
