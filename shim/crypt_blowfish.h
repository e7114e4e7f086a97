#include "ow-crypt.h"
