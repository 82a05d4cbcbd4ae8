package gocui

// VerifGui is the Gui created last (registered by the verification build).
var VerifGui *Gui
