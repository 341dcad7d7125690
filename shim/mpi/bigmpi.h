#include "mpi.h"
