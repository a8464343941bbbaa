"""The checks, by property."""
import checks_seq, checks_mpi, checks_io

CHECKS = {}
CHECKS.update(checks_seq.CHECKS)
CHECKS.update(checks_mpi.CHECKS)
CHECKS.update(checks_io.CHECKS)
