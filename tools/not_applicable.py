NOT_APPLICABLE = {}
