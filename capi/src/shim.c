/* Calls of the C API, as a C program makes them, through its header. */
#include <sys/types.h>
#include <string.h>
#include "credential.h"

typedef struct { const uint8_t *p; uint64_t n; } arg;
typedef struct { uint64_t len; const uint8_t *ptr; } result;

static result r(buf_t b) { result x; x.len = b.len; x.ptr = b.ptr; return x; }

int shim_call(const char *f, const arg *a, result *out) {
    if (!strcmp(f, "system_parameters_create")) *out = r(system_parameters_create(a[0].p));
    else if (!strcmp(f, "issuer_create")) *out = r(issuer_create(a[0].p, a[0].n, a[1].p));
    else if (!strcmp(f, "issuer_new")) *out = r(issuer_new(a[0].p, a[0].n, a[1].p, a[1].n));
    else if (!strcmp(f, "issuer_get_issuer_parameters")) *out = r(issuer_get_issuer_parameters(a[0].p, a[0].n));
    else if (!strcmp(f, "issuer_issue")) *out = r(issuer_issue(a[0].p, a[0].n, a[1].p, a[1].n, a[2].p));
    else if (!strcmp(f, "issuer_verify")) *out = r(issuer_verify(a[0].p, a[0].n, a[1].p, a[1].n));
    else if (!strcmp(f, "issuer_verify_roster_membership")) *out = r(issuer_verify_roster_membership(a[0].p, a[0].n, a[1].p, a[1].n));
    else if (!strcmp(f, "user_obtain_finish"))
        *out = r(user_obtain_finish(a[0].p, a[0].n, a[1].p, a[1].n, a[2].p, a[2].n, a[3].p, a[3].n));
    else if (!strcmp(f, "user_show")) *out = r(user_show(a[0].p, a[0].n, a[1].p, a[1].n, a[2].p));
    else if (!strcmp(f, "roster_entry_commitment_create")) *out = r(roster_entry_commitment_create(a[0].p, a[0].n, a[1].p, a[1].n, a[2].p));
    else if (!strcmp(f, "roster_entry_commitment_remove_opening")) *out = r(roster_entry_commitment_remove_opening(a[0].p, a[0].n));
    else if (!strcmp(f, "roster_entry_commitment_open"))
        *out = r(roster_entry_commitment_open(a[0].p, a[0].n, a[1].p, a[1].n, a[2].p, a[2].n));
    else return 0;
    return 1;
}

/* The lengths that the header documents */
uint64_t shim_length(const char *k) {
    if (!strcmp(k, "seed")) return LENGTH_SEED;
    if (!strcmp(k, "params")) return LENGTH_SYSTEM_PARAMETERS;
    if (!strcmp(k, "issuer")) return LENGTH_ISSUER;
    if (!strcmp(k, "ipar")) return LENGTH_ISSUER_PARAMETERS;
    if (!strcmp(k, "keypair")) return LENGTH_ISSUER_KEYPAIR;
    if (!strcmp(k, "user")) return LENGTH_USER;
    if (!strcmp(k, "issuance")) return LENGTH_CREDENTIAL_ISSUANCE;
    if (!strcmp(k, "pres")) return LENGTH_CREDENTIAL_PRESENTATION;
    if (!strcmp(k, "verified")) return LENGTH_VERIFIED_CREDENTIAL;
    if (!strcmp(k, "entry")) return LENGTH_ROSTER_ENTRY_COMMITMENT;
    if (!strcmp(k, "roster")) return LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING;
    return 0;
}
