#include "ndarraytypes.h"
