#include <routingkit/id_set_queue.h>
