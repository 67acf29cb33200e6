// A stand-in for the generated list of licenses, of the same form, with short patterns:
// the checks are about what is done with the list.

package licensecheck

var builtinLREs = []License{
	{ID: "Apache-2.0", LRE: license_Apache_2_0_lre},
	{ID: "CC-BY-4.0", Type: ShareChanges, LRE: license_CC_BY_4_0_lre},
	{ID: "ISC", Type: Notice | Discouraged, LRE: license_ISC_lre},
	{ID: "MIT", Type: Notice, LRE: license_MIT_lre},
	{ID: "WTFPL", Type: Discouraged, LRE: license_WTFPL_lre},
}

const license_Apache_2_0_lre = `//** Apache **//
a b
`

const license_CC_BY_4_0_lre = `b d
((e))??
`

const license_ISC_lre = `((copyright b __3__ d
|| d e))
`

const license_MIT_lre = `a b __2__ d e
`

const license_WTFPL_lre = `http mit
`
