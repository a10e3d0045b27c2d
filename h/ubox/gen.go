// Stands in for generated declarations (see cmd/genu and check.sh).
package ubox

const Seed, N = 0, 0
