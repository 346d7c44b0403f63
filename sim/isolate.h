// Force-included into every module of the code under test: its globals and statics live in sections the
// simulator snapshots and restores, so that no run can see what another run of the same process left behind.
#pragma clang section bss = "modbss" data = "moddata"
