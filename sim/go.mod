module verif/sim

go 1.27

require github.com/aclindsa/ofxgo v0.0.0

require (
	github.com/aclindsa/xml v0.0.0-20201125035057-bbd5c9ec99ac // indirect
	golang.org/x/sys v0.0.0-20220722155257-8c9f86f7a55f // indirect
	golang.org/x/term v0.0.0-20210927222741-03fcf44c2211 // indirect
	golang.org/x/text v0.3.8 // indirect
)

replace github.com/aclindsa/ofxgo => /repo
