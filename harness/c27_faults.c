#define FAULTY 1
#include "scenario.h"
// One failure of an SDK primitive (hash, key derivation, curve arithmetic, formatting) anywhere in an operation: the command, or the
// decision, in whose handling it happens is answered with an error, and the operation is over.
void harness(void) {
    h_faults_on();
    scenario();
}
