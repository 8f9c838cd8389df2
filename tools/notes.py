NOTES = {}
NOT_APPLICABLE = {
}
