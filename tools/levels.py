LEVELS = {}
NOT_APPLICABLE = []
