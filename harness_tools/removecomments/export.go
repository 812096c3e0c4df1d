package removecomments

// VxMain and VxWant are for the harness of both commands

func VxMain() { main() }

func VxWant(b []byte) []byte { return vxOracle(b) }
