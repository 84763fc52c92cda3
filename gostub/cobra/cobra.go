// Package cobra is a stand-in: one command with short and long options.
package cobra

import (
	"fmt"
	"os"
	"strings"
)

type Command struct {
	Use  string
	RunE func(cmd *Command, args []string) error
	f    FlagSet
}
type flag struct {
	name, short string
	set         func(string)
}
type FlagSet struct{ flags []flag }

func (c *Command) Flags() *FlagSet { return &c.f }
func (f *FlagSet) StringVarP(p *string, name, short, def, usage string) {
	*p = def
	f.flags = append(f.flags, flag{name, short, func(s string) { *p = s }})
}
func (f *FlagSet) StringArrayVarP(p *[]string, name, short string, def []string, usage string) {
	*p = def
	f.flags = append(f.flags, flag{name, short, func(s string) { *p = append(*p, s) }})
}

func (c *Command) Execute() error {
	args := os.Args[1:]
	pos := []string{}
	fail := func(err error) error {
		fmt.Fprintln(os.Stderr, "Error:", err) // as cobra: says it and returns it
		return err
	}
	for i := 0; i < len(args); i++ {
		a := args[i]
		if !strings.HasPrefix(a, "-") || a == "-" {
			pos = append(pos, a)
			continue
		}
		ok := false
		for _, f := range c.f.flags {
			val := ""
			if a == "--"+f.name || a == "-"+f.short {
				if i+1 >= len(args) {
					return fail(fmt.Errorf("flag needs an argument: %s", a))
				}
				i++
				val = args[i]
			} else if strings.HasPrefix(a, "--"+f.name+"=") {
				val = a[len(f.name)+3:]
			} else if !strings.HasPrefix(a, "--") && strings.HasPrefix(a, "-"+f.short) {
				val = strings.TrimPrefix(a[2:], "=")
			} else {
				continue
			}
			f.set(val)
			ok = true
			break
		}
		if !ok {
			return fail(fmt.Errorf("unknown flag: %s", a))
		}
	}
	if err := c.RunE(c, pos); err != nil {
		return fail(err)
	}
	return nil
}
