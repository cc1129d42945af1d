// Drives NeighborSearcher (the class the program's own unit test drives) over a sequence of searches.
// stdin: cases, each:  re xMin xMax yMin yMax zMin zMax n nsearch, then nsearch times n rows "type x y z"
// (the type is used in the first search only; later searches keep the type the program has given).
// Each case runs in a process of its own, as a run of the program does; nothing is left over from the case before.
// stdout: per case "case", per search "search", per particle "type count id dist id dist ..."; numbers as hex floats.
#include "domain.hpp"
#include "neighbor_searcher.hpp"
#include "particles.hpp"

#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static double rd() {
    double d;
    if (scanf("%lf", &d) != 1)
        std::exit(3);
    return d;
}

int main() {
    int cases;
    if (scanf("%d", &cases) != 1)
        return 3;
    while (cases--) {
        double re = rd();
        Domain dom;
        dom.xMin = rd();
        dom.xMax = rd();
        dom.yMin = rd();
        dom.yMax = rd();
        dom.zMin = rd();
        dom.zMax = rd();
        dom.xLength = dom.xMax - dom.xMin;
        dom.yLength = dom.yMax - dom.yMin;
        dom.zLength = dom.zMax - dom.zMin;
        int n = (int) rd(), k = (int) rd();
        struct Row {
            int type;
            double x, y, z;
        };
        std::vector<Row> rows;
        for (int m = 0; m < n * k; m++) {
            Row r;
            r.type = (int) rd();
            r.x = rd();
            r.y = rd();
            r.z = rd();
            rows.push_back(r);
        }
        printf("case\n");
        fflush(stdout);
        pid_t child = fork();
        if (child != 0) {
            int status = 1;
            if (child < 0 || waitpid(child, &status, 0) < 0 || status != 0)
                return 4;
            continue;
        }
        Particles ps;
        NeighborSearcher searcher(re, dom, n);
        for (int s = 0; s < k; s++) {
            for (int i = 0; i < n; i++) {
                const Row& r = rows[s * n + i];
                Eigen::Vector3d p(r.x, r.y, r.z);
                if (s == 0)
                    ps.add(Particle(i, static_cast<ParticleType>(r.type), p, Eigen::Vector3d::Zero(), 1000.0));
                else
                    ps[i].position = p;
            }
            searcher.setNeighbors(ps);
            printf("search\n");
            for (int i = 0; i < n; i++) {
                printf("%d %d", (int) ps[i].type, (int) ps[i].neighbors.size());
                for (auto& nb : ps[i].neighbors)
                    printf(" %d %a", nb.id, nb.distance);
                printf("\n");
            }
        }
        fflush(stdout);
        _exit(0);
    }
}
