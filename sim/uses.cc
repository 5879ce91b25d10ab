#include "work.h"
const std::vector<Use> uses = {
    {"C01", "dist", 10}, {"C02", "dist", 10}, {"C03", "dist", 10}, {"C04", "dist", 10},
    {"C05", "weave", 10}, {"C11", "weave", 6}, {"C12", "weave", 6}, {"C13", "weave", 6},
    {"C06", "hist", 10}, {"C07", "hist", 10}, {"C08", "hist", 10}, {"C09", "hist", 10}, {"C10", "hist", 10}, {"C14", "hist", 10},
    {"C11", "hist", 10}, {"C12", "hist", 10}, {"C13", "hist", 10},
    {"C11", "dist", 10}, {"C12", "dist", 10}, {"C13", "dist", 10},
    {"C16", "file", 10}, {"C17", "file", 10}, {"C18", "file", 10},
    {"C15", "collapse", 10}, {"C11", "collapse", 3}, {"C12", "collapse", 3}, {"C13", "collapse", 3},
    {"C21", "threads", 10}, {"C23", "threads", 10},
    {"C22", "dist", 10}, {"C22", "weave", 5}, {"C22", "hist", 15}, {"C22", "collapse", 3}, {"C22", "file", 8}, {"C22", "exo", 8},
    {"C24", "dist", 8}, {"C24", "weave", 8}, {"C24", "hist", 12}, {"C24", "collapse", 4}, {"C24", "exo", 6},
    {"C19", "file", 10}, {"C20", "exo", 10},
    {"C16", "pfile", 3}, {"C17", "pfile", 4}, {"C12", "pfile", 3}, {"C13", "pfile", 2}, {"C22", "pfile", 3},
    {"C27", "convert", 10}, {"C28", "tools", 10}, {"C29", "exoin", 10}, {"C22", "convert", 3}, {"C13", "convert", 2},
    {"C26", "gmvin", 10}, {"C22", "gmvin", 4}, {"C24", "gmvin", 4}, {"C11", "gmvin", 3}, {"C12", "gmvin", 4}, {"C13", "gmvin", 3},
    {"C25", "export", 10}, {"C22", "export", 8}, {"C24", "export", 5}, {"C11", "export", 4}, {"C12", "export", 4}, {"C13", "export", 3},
};
