/* the interface of the library for checks that are not compiled in one unit with it */
#include <stdlib.h>
#include <stdio.h>
#include <math.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <sph-sp/sph-sp.h>
#include <sph-sp/spline-path.h>
#include <sph-sp/quicksort.h>
#include <sph-sp/queue.h>
#include <sph-sp/random.h>
#include <sph-sp/float.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
#include <sph-sp/helper.h>
status_t sp_event_block_generate(sp_time_t, sp_event_block_generate_t, sp_time_t, sp_time_t, sp_block_t, sp_event_t*);
spline_path_segment_t spline_path_bezier_arc(spline_path_value_t, spline_path_value_t, spline_path_value_t);
