/* The MQTT library that daxmqtt sees: a broker that the harness plays. */
#include <MQTTClient.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
struct mc_sub { int qos; char topic[64]; } mc_subs[64];
struct mc_pub { int qos, retained, len; char topic[64]; unsigned char d[256]; } mc_pubs[64];
struct mc_in { int kind, len; char topic[64]; unsigned char d[256]; } mc_in[16], mc_ret; int mc_hasret;
int mc_nsubs, mc_npubs, mc_nin, mc_done, mc_up = 1, mc_connected, mc_nconn, mc_ntry, mc_ndisc, mc_ndest, mc_exited, mc_live, mc_refused, mc_bad, mc_nomsg;
char mc_uri[80], mc_client[80], mc_user[80], mc_pass[80];
int (*mc_wait)(void); void (*mc_wake)(void);
static MQTTClient_connectionLost *cl; static MQTTClient_messageArrived *ma; static void *ctx;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void pt(void) { pthread_mutex_lock(&mu); pthread_mutex_unlock(&mu); }
void mc_push(int kind, const char *t, const void *d, int n) { struct mc_in *m = &mc_in[mc_nin % 16]; memset(m, 0, sizeof *m); if (mc_nin - mc_done >= 16 || n > (int)sizeof m->d) abort(); m->kind = kind; m->len = n; snprintf(m->topic, sizeof m->topic, "%s", t); if (n) memcpy(m->d, d, n); mc_nin++; }
void *mq_thread(void *x) {
    for (;;) {
        while (mc_done != mc_nin) {
            struct mc_in in = mc_in[mc_done % 16];
            if (in.kind == 2) { if (cl) { pt(); cl(ctx, 0); } }
            else if (ma) {
                MQTTClient_message i = MQTTClient_message_initializer, *m = malloc(sizeof *m); char *t = strdup(in.topic); *m = i; m->payloadlen = in.len; m->payload = malloc(in.len ? in.len : 1); memcpy(m->payload, in.d, in.len); mc_live += 2;
                pt(); for (int k = 0; !ma(ctx, t, 0, m); k++) { if (k == 3) { mc_refused++; break; } pt(); }
            } else mc_nomsg++;
            mc_done++;
        }
        mc_wait();
    }
    return 0;
}
int MQTTClient_create(MQTTClient *h, const char *u, const char *c, int p, void *pc) { *h = &mu; snprintf(mc_uri, sizeof mc_uri, "%s", u ? u : "(null)"); snprintf(mc_client, sizeof mc_client, "%s", c ? c : "(null)"); return 0; }
int MQTTClient_createWithOptions(MQTTClient *h, const char *u, const char *c, int p, void *pc, MQTTClient_createOptions *o) { return MQTTClient_create(h, u, c, p, pc); }
int MQTTClient_setCallbacks(MQTTClient h, void *c, MQTTClient_connectionLost *l, MQTTClient_messageArrived *a, MQTTClient_deliveryComplete *d) { ctx = c; cl = l; ma = a; return 0; }
int MQTTClient_connect(MQTTClient h, MQTTClient_connectOptions *o) {
    pt(); mc_ntry++; if (!mc_up) return MQTTCLIENT_FAILURE;
    if (o->cleansession) mc_nsubs = 0;
    snprintf(mc_user, sizeof mc_user, "%s", o->username ? o->username : "(null)"); snprintf(mc_pass, sizeof mc_pass, "%s", o->password ? o->password : "(null)"); if (o->keepAliveInterval <= 0 || o->connectTimeout <= 0) mc_bad++;
    mc_connected = 1; mc_nconn++; pt(); return MQTTCLIENT_SUCCESS;
}
int MQTTClient_disconnect(MQTTClient h, int t) { pt(); mc_ndisc++; if (!mc_connected) return MQTTCLIENT_DISCONNECTED; mc_connected = 0; return 0; }
void MQTTClient_destroy(MQTTClient *h) { mc_ndest++; *h = 0; }
int MQTTClient_isConnected(MQTTClient h) { return mc_connected; }
static int matches(const char *f, const char *t) { return !strcmp(f, t); }
int MQTTClient_subscribe(MQTTClient h, const char *t, int q) {
    int i; pt(); if (!mc_connected) return MQTTCLIENT_DISCONNECTED; if (q < 0 || q > 2) return MQTTCLIENT_BAD_QOS;
    for (i = 0; i < mc_nsubs; i++) if (!strcmp(mc_subs[i].topic, t)) break;
    if (i == mc_nsubs) { if (i == 64) abort(); mc_nsubs++; } snprintf(mc_subs[i].topic, 64, "%s", t); mc_subs[i].qos = q;
    if (mc_hasret && matches(t, mc_ret.topic)) { mc_push(1, mc_ret.topic, mc_ret.d, mc_ret.len); mc_wake(); }
    pt(); return MQTTCLIENT_SUCCESS;
}
int MQTTClient_subscribeMany(MQTTClient h, int n, char *const *t, int *q) { for (int i = 0; i < n; i++) { int r = MQTTClient_subscribe(h, t[i], q[i]); if (r) return r; } return 0; }
int MQTTClient_unsubscribe(MQTTClient h, const char *t) { pt(); if (!mc_connected) return MQTTCLIENT_DISCONNECTED; for (int i = 0; i < mc_nsubs; i++) if (!strcmp(mc_subs[i].topic, t)) { mc_subs[i] = mc_subs[--mc_nsubs]; break; } return 0; }
int MQTTClient_unsubscribeMany(MQTTClient h, int n, char *const *t) { for (int i = 0; i < n; i++) MQTTClient_unsubscribe(h, t[i]); return 0; }
int MQTTClient_publish(MQTTClient h, const char *t, int n, const void *d, int q, int r, MQTTClient_deliveryToken *dt) {
    struct mc_pub *p; pt(); if (!mc_connected) return MQTTCLIENT_DISCONNECTED; if (q < 0 || q > 2) return MQTTCLIENT_BAD_QOS; if (mc_npubs >= 64) abort();
    p = &mc_pubs[mc_npubs++]; memset(p, 0, sizeof *p); snprintf(p->topic, 64, "%s", t); p->qos = q; p->retained = r; p->len = n; memcpy(p->d, d, n > 256 ? 256 : n); if (dt) *dt = mc_npubs; pt(); return MQTTCLIENT_SUCCESS;
}
int MQTTClient_publishMessage(MQTTClient h, const char *t, MQTTClient_message *m, MQTTClient_deliveryToken *dt) { return MQTTClient_publish(h, t, m->payloadlen, m->payload, m->qos, m->retained, dt); }
int MQTTClient_waitForCompletion(MQTTClient h, MQTTClient_deliveryToken dt, unsigned long t) { return 0; }
void MQTTClient_yield(void) { pt(); }
void MQTTClient_freeMessage(MQTTClient_message **m) { free((*m)->payload); free(*m); *m = 0; mc_live--; }
void MQTTClient_free(void *p) { free(p); mc_live--; }
void *MQTTClient_malloc(size_t n) { return malloc(n); }
const char *MQTTClient_strerror(int c) { return "error"; }
