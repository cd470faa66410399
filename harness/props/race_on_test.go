//go:build verifrace

package props

func init() { raceBuild = true }
