property = "C20"
needs = "a value with a number sign in it"
breaks = "a value is cut at a number sign"
edits = [("util/ConfigReader.go", """		s := strings.Split(line,"=")
""", """		// without a trailing comment
		s := strings.Split(strings.SplitN(line, "#", 2)[0],"=")
""")]
pkg = "util"
demo = r'''
package util

import ("os"; "testing")

func TestDemo(t *testing.T) {
	if err := os.Chdir(t.TempDir()); err != nil { t.Fatal(err) }
	defer os.Chdir("/")
	os.Mkdir("config", 0o755)
	os.WriteFile("config/local.properties", []byte("local_port=12345\nname=node#7\n"), 0o644)
	os.WriteFile("config/conn.properties", []byte("coordinator_ip=127.0.0.1\n"), 0o644)
	if c := ReadConfig(); c["local_port"] != "12345" || c["name"] != "node#7" || c["coordinator_ip"] != "127.0.0.1" {
		t.Fatal("read", c)
	}
}
'''
