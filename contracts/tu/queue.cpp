#include <routingkit/id_queue.h>
#include <routingkit/timestamp_flag.h>
