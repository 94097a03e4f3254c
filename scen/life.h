// Between the files of a program (unit.cpp) and the scenario about its whole life (life.cpp).
#pragma once
#include "../sim/sim.h"

namespace life
{
	enum { UNITS = 3 };
	enum Phase { INIT, MAIN, EXIT };
	/** An object of static storage duration of a unit was made / is about to go. */
	void entered(int unit);
	void leaving(int unit);
	/** The same verdict for the same question, whenever it is asked. */
	void verdict(int question, bool answer);
	bool asks(); // patterns take long
	void want(bool ok, int unit, const char * what);
}
/** Uses every static object of a unit. */
extern "C" void unitUse0(int n), unitUse1(int n), unitUse2(int n);
/** Uses objects of the calling thread. */
extern "C" void unitThread0(int n), unitThread1(int n), unitThread2(int n);
