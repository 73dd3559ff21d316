#include "verif_prelude.h"
