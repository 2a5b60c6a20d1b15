// The reference implementation of H3, asked for what the specification prescribes (which is what is under
// examination here, not the code of the repository).  One question per line, one answer per line.
#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "h3_faceijk.h"
#include "h3_coordijk.h"

static double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

int main(void) {
    char k[16];
    while (scanf("%15s", k) == 1) {
        FaceIJK f = {0};
        unsigned long long a, b;
        int r;
        if (!strcmp(k, "cell")) {
            if (scanf("%llx %llx %d", &a, &b, &r) != 3) return 1;
            LatLng g = {dbl(a), dbl(b)};
            _geoToFaceIjk(&g, r, &f);
        } else if (!strcmp(k, "hex")) {
            if (scanf("%llx %llx", &a, &b) != 2) return 1;
            Vec2d v = {dbl(a), dbl(b)};
            _hex2dToCoordIJK(&v, &f.coord);
        } else if (!strcmp(k, "norm")) {
            if (scanf("%d %d %d", &f.coord.i, &f.coord.j, &f.coord.k) != 3) return 1;
            _ijkNormalize(&f.coord);
        } else {
            return 1;
        }
        printf("%d %d %d\n", f.coord.i, f.coord.j, f.coord.k);
    }
    return 0;
}
