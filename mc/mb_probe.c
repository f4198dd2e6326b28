/* What the Modbus module itself counts: read from its configuration by the harness. Compiled against the headers of the code under test. */
#include <modbus.h>
#include <modopt.h>
extern struct Config config;
static mb_cmd *nth(int p, int n) { mb_cmd *c; if (p >= config.portcount) return NULL; c = config.ports[p]->commands; while (c && n--) c = c->next; return c; }
int mc_mb_cmd(int p, int n, unsigned int *out)
{
    mb_cmd *c = nth(p, n); if (!c) return 0;
    out[0] = c->requests; out[1] = c->responses; out[2] = c->timeouts; out[3] = c->crcerrors; out[4] = c->exceptions; out[5] = c->lasterror; out[6] = c->enable; out[7] = c->datasize;
    return 1;
}
int mc_mb_ports(void) { return config.portcount; }
