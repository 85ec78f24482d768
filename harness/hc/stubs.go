package hc

import (
	"io"
	"strings"

	"github.com/spf13/cobra"
	"github.com/spf13/viper"
)

// Adds a hidden command for shells.
//
//verif:stub cobra (*github.com/spf13/cobra.Command).initCompleteCmd
func initCompleteCmd(c *cobra.Command, args []string) {}

// Reads lines of the form key: value.
//
//verif:stub viper (*github.com/spf13/viper.Viper).unmarshalReader
func unmarshalReader(v *viper.Viper, in io.Reader, c map[string]interface{}) error {
	b, err := io.ReadAll(in)
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.Index(l, ": ")
		if i < 0 {
			continue
		}
		k, t := strings.ToLower(l[:i]), l[i+2:]
		switch {
		case t == "true" || t == "false":
			c[k] = t == "true"
		case len(t) == 1 && t[0] >= '0' && t[0] <= '9':
			c[k] = int(t[0] - '0')
		case strings.HasPrefix(t, "["):
			c[k] = []interface{}{unquoted(t[1 : len(t)-1])}
		default:
			c[k] = unquoted(t)
		}
	}
	return nil
}

func unquoted(t string) string {
	if strings.HasPrefix(t, "\"") {
		return strings.Trim(t, "\"")
	}
	return t
}

// The text of a help message.
//
//verif:stub cobra (*github.com/spf13/cobra.Command).UsageString
func usageString(c *cobra.Command) string { return "usage" }
