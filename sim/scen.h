#pragma once
#include "work.h"
void runScenario(int prop);            // C<prop>: draws a world from CH, runs it, judges it
void resetRand();                      // restart the deterministic random generator
