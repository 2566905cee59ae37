// Included first (-include): OpenFst as it is, before any name of its own locks is redirected.
#include "fst/fstlib.h"
#include "fst/icu.h"
#include "fst/reweight.h"
