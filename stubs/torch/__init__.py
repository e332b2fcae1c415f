"""pythagoras uses torch for one number only (how many GPUs to report); importing it takes seconds."""


class cuda:
    @staticmethod
    def device_count():
        return 0


class Tensor:      # scipy's array-API layer and joblib only ask whether an object is one
    pass


class Generator:
    pass
